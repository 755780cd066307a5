"""C20: Lambda and teraquop projections (Lambda.tla)."""
import contextlib
import decimal
import io
import math
import os
import random
import sys
from fractions import Fraction

import circuits
import figprog

LN2 = math.log(2)
BIG = 10 ** 45
UNIT = {"honeycomb_SD6": 60, "honeycomb_SI1000": 60, "honeycomb_EM3_v2": 24, "surface_SD6": 0, "surface_SI1000": 0}


@contextlib.contextmanager
def quiet():
    with contextlib.redirect_stdout(io.StringIO()):
        yield


def module():
    import importlib
    import vlib
    p = str(vlib.REPO / "src" / "paper")
    if p not in sys.path:
        sys.path.append(p)
    return importlib.import_module("main_render_lambda_figure")


def desc(style, obs, d, noise, decoder="internal", cells=3):
    from collect_data import DecodingProblemDesc
    if style.startswith("surface"):
        return DecodingProblemDesc(data_width=d, data_height=d, code_distance=d, num_qubits=2 * d * d - 1, rounds=cells * d, noise=noise,
                                   circuit_style=style, preserved_observable={"h": "X", "v": "Z"}[obs], decoder=decoder)
    q = UNIT[style] * (d // 4) ** 2
    return DecodingProblemDesc(data_width=d, data_height=d * 3 // 2, code_distance=d, num_qubits=q, rounds=cells * d, noise=noise,
                               circuit_style=style, preserved_observable={"h": "H", "v": "V"}[obs], decoder=decoder)


def shots(total, tag=0.0):
    """Shot data whose error rate is the fraction `total` (to 45 digits)."""
    from collect_data import ShotData
    if total.denominator <= 10 ** 18:
        n, e = total.denominator, total.numerator
    else:
        n, e = BIG, round(total * BIG)
    return ShotData(num_shots=n, num_correct=n - e, total_processing_seconds=tag)


def compose(p, cells):
    return (1 - (1 - 2 * p) ** cells) / 2


# ---- pairing -----------------------------------------------------------------------------------------------------------

def pairing(job):
    """Two worlds of the model as two noise strengths of one data set; what the implementation made of them."""
    from collect_data import ProblemShotData
    mod = module()
    style, cells, worlds, seed = job["style"], job["cells"], job["worlds"], job["seed"]
    rng = random.Random(seed)
    items, recs = [], []
    for k, w in enumerate(worlds):
        for side in "hv":
            for d, a in zip(w["d"], w[side]):
                d = d * 4 if style.startswith("honeycomb") else d * 4 - 1
                if a < 0:
                    continue
                ident = len(recs) + 1
                items.append((desc(style, side, d, (k + 1) / 1000, cells=cells), shots(compose(Fraction(a, 16), cells), float(ident))))
                recs.append([k + 1, side, d, ident])
    rng.shuffle(items)
    with quiet():
        groups = mod.LambdaGroup.groups_from_data(ProblemShotData(dict(items)))
        out, values = [], []
        for noise, g in groups.items():
            k = round(noise * 1000)
            assert g.noise == noise
            ident = lambda m: [[d, int(v.total_processing_seconds)] for d, v in m.items()]
            out.append(dict(noise=k, h=ident(g.distance_error_pairs_h), v=ident(g.distance_error_pairs_v), low=bool(g.has_low_confidence_extrapolation)))
            values.append([k, [int(x) for x in g.combo_data[0]], [float(y) for y in g.combo_data[1]]])
    return dict(row=dict(kind="pair", recs=recs, groups=out), values=values)


# ---- fits --------------------------------------------------------------------------------------------------------------

def law_items(style, ds, ks, noise, decoder, cells, split, rng):
    """Records whose cell error at distance d is 2^-k."""
    items = []
    for d, k in zip(ds, ks):
        e = Fraction(1, 2 ** k)
        if split == "h" or split == "v":        # one side only: both take the same rate
            # 1 - (1-p)^2 = e to 45 digits
            decimal.getcontext().prec = 60
            p = 1 - Fraction((1 - decimal.Decimal(e.numerator) / decimal.Decimal(e.denominator)).sqrt())
            items.append((desc(style, split, d, noise, decoder, cells), shots(compose(p, cells))))
        else:
            h = e * Fraction(split, 8)
            v = (e - h) / (1 - h)
            items.append((desc(style, "h", d, noise, decoder, cells), shots(compose(h, cells))))
            items.append((desc(style, "v", d, noise, decoder, cells), shots(compose(v, cells))))
    rng.shuffle(items)
    return items


def ilog(v, scale=10000):
    return round(math.log(v) / LN2 * scale)


def fits(job):
    from collect_data import ProblemShotData
    mod = module()
    rng = random.Random(job["seed"])
    style, ds, ks, t2 = job["style"], job["ds"], job["ks"], job["t2"]
    items = law_items(style, ds, ks, 0.001, "internal", job["cells"], job["split"], rng)
    with quiet():
        g = mod.LambdaGroup.groups_from_data(ProblemShotData(dict(items)))[0.001]
        r = g.linear_fit_d_to_log_err
        target = 2.0 ** (-t2 / 2)
        l1, l2, l3 = g.projected_lambda_range()
        rising = r.slope < -1e-9
        q = g.projected_required_qubit_count(target, style) if rising else 0
        q1, q2 = g.projected_qubit_count_range(target, style) if rising and job["exact"] else (0, 0)
        pd = g.projected_distance(target) if rising else 0
        sq = lambda a: round((math.log(a / l2) / 2) ** 2 * 10 ** 6)
        return dict(kind="fit", ds=ds, ks=ks, t2=t2, style=style.split("_")[0], unit=UNIT[style], dq=job["dq"],
                    slope=round(-r.slope / LN2 * 10000), icpt=round(-r.intercept / LN2 * 10000), pe=-ilog(g.projected_error(job["dq"])),
                    pd=round(pd * 10000), lam=ilog(l2), lo=min(ilog(l1), ilog(l3)), hi=max(ilog(l1), ilog(l3)), v1=sq(l1), v3=sq(l3),
                    q=round(q), q1=round(q1), q2=round(q2))


def fit_jobs(chk):
    rng = chk.rng
    jobs = []
    hd, sd = [4, 8, 12, 16, 20], [3, 7, 11, 15, 19]
    for _ in range(600 if chk.quick else 6000):
        style = rng.choice(list(UNIT))
        ds = sd if style.startswith("surface") else hd
        ds = sorted(rng.sample(ds, rng.randrange(2, 6)))
        exact = rng.random() < 0.7
        if exact:
            k0, b4 = rng.randrange(1, 8), rng.choice([1, 1, 2, 2, 3, 4, 5, -1] if ds[-1] > 12 else [1, 2, 3, 4, 5, 6, 0])
            ks = [k0 + b4 * (d - ds[0]) // 4 for d in ds]
            if min(ks) < 1:
                ks = [k - min(ks) + 1 for k in ks]
        else:
            ks = [rng.randrange(1, 24) for _ in ds]
        top = max(ks)
        exact = all((ks[i] - ks[0]) * (ds[1] - ds[0]) == (ks[1] - ks[0]) * (ds[i] - ds[0]) for i in range(len(ds)))
        jobs.append(dict(style=style, ds=ds, ks=ks, exact=exact, t2=rng.randrange(2 * top + 1, 82) if 2 * top + 1 < 82 else 81,
                         dq=rng.choice([1, 2, 3, 5, 10, 20, 25]), cells=rng.choice([1, 2, 3, 3]),
                         split=rng.choice([4, 4, 1, 6, 2, "h", "v"]), seed=rng.random()))
    return [j for j in jobs if max(j["ks"]) <= 26]


# ---- figures -----------------------------------------------------------------------------------------------------------

PANELS = [("SD6", ["honeycomb_SD6", "surface_SD6"]), ("SI1000", ["honeycomb_SI1000", "surface_SI1000"]), ("EM3", ["honeycomb_EM3_v2"])]
DECODERS = ["internal", "internal_correlated"]


def figure(job):
    from collect_data import ProblemShotData
    import matplotlib.pyplot as plt
    mod = module()
    rng = random.Random(job["seed"])
    items, cases = [], []
    for panel, styles in PANELS:
        for style in styles:
            for dec in DECODERS:
                pts = []
                for i in rng.sample(range(1, 6), rng.choice([0, 1, 2, 3, 3])):
                    ds = sorted(rng.sample([3, 7, 11, 15] if style.startswith("surface") else [4, 8, 12, 16], rng.randrange(2, 5)))
                    b4 = rng.choice([1, 2, 3, 4, -1])       # the law extrapolates to a cell error of at most 1/2 at distance zero
                    k0 = 6 if b4 < 0 else b4 * ds[0] // 4 + rng.randrange(2, 5)
                    ks = [k0 + b4 * (d - ds[0]) // 4 for d in ds]
                    pts.append(dict(noise=i, ds=ds, ks=ks))
                    items += law_items(style, ds, ks, i / 1000, dec, 3, rng.choice([4, 1, 6, "h", "v"]), rng)
                label = style.split("_")[0].capitalize() + (" (Correlated)" if dec == DECODERS[1] else " (Standard)")
                cases.append(dict(panel=panel, label=label, style=style.split("_")[0], unit=UNIT[style], pts=pts))
    rng.shuffle(items)
    rows = []
    for what, fn in (("lambda", mod.plot_lambda_combo), ("teraquop", mod.plot_teraquop_combo)):
        with quiet():
            if job["prog"]:
                fig = figprog.pick(mod, ProblemShotData(dict(items)), rng, what)
            else:
                fig, axs = fn(ProblemShotData(dict(items)))
        lines = []
        conv = ilog if what == "lambda" else round
        for ax in fig.get_axes():
            bands = {}
            named = [l for l in ax.get_lines() if not l.get_label().startswith("_")]
            polys = list(ax.collections)
            for l, poly in zip(named, polys):
                xs, ys = [float(x) for x in l.get_xdata()], [float(y) for y in l.get_ydata()]
                verts = [tuple(v) for path in poly.get_paths() for v in path.vertices]
                pts = []
                for x, y in zip(xs, ys):
                    band = [float(b) for a, b in verts if abs(a - x) < 1e-12]
                    pts.append(dict(noise=round(x * 1000), y=conv(y), lo=conv(min(band)), hi=conv(max(band))))
                lines.append(dict(panel=ax.get_title(), label=l.get_label(), pts=pts))
        plt.close(fig)
        rows.append(dict(kind="fig", what=what, cases=cases, lines=lines, t2=0))
    return rows


def run(chk):
    os.environ.setdefault("MPLBACKEND", "Agg")
    consts = dict(Dists="{1, 2}", Rates="{0, 1, 3, 8}") if chk.quick else dict(Dists="{1, 2, 3}", Rates="{0, 1, 5, 8}")
    r = chk.tlc("Lambda", consts=consts, env={"TRACES": "/dev/null"}, spec=("MInit", "MNext"), invariants=["Sorted", "Bounds", "Report"])
    worlds = r.items
    rng = chk.rng
    rng.shuffle(worlds)
    jobs = []
    for i, w in enumerate(worlds):
        style = ["honeycomb_SD6", "surface_SD6", "honeycomb_EM3_v2", "surface_SI1000"][i % 4]
        other = rng.choice(worlds)
        jobs.append(dict(style=style, cells=1 + i % 3, worlds=[w, other], seed=rng.random()))
    kept, rows = circuits.build_rows(chk, pairing, jobs, lambda j: f"pairing {j['style']} {j['worlds']}")
    for j, row in zip(kept, rows):
        for k, xs, ys in row["values"]:
            w = j["worlds"][k - 1]
            scale = (lambda d: d * 4) if j["style"].startswith("honeycomb") else (lambda d: d * 4 - 1)
            if xs != [scale(x) for x in w["xs"]] or any(abs(a - b / 256) > 1e-9 for a, b in zip(ys, w["ys"])) or len(ys) != len(xs):
                chk.violation(f"{j['style']} with {j['cells']} cells: {w} is paired into {xs}, {ys}")
    describe = lambda i: f"pairing {kept[i]}"
    tc = dict(Dists="{}", Rates="{}")
    chk.validate_traces("Lambda", [x["row"] for x in rows], describe=describe, consts=tc, spec=("TInit", "TNext"))
    chk.count("pairings", len(rows))
    fj = fit_jobs(chk)
    fkept, frows = circuits.build_rows(chk, fits, fj, lambda j: f"fit {j}")
    chk.validate_traces("Lambda", frows, describe=lambda i: f"fit {fkept[i]}", consts=tc, spec=("TInit", "TNext"))
    chk.count("fits", len(frows))
    gj = [dict(seed=rng.random(), prog=i % 3 == 0) for i in range(24 if chk.quick else 200)]
    gkept, grows = circuits.build_rows(chk, figure, gj, lambda j: f"figure {j}")
    flat = []
    for rs in grows:
        for row in rs:
            row["t2"] = 80
            flat.append(row)
    chk.validate_traces("Lambda", flat, describe=lambda i: f"figure {flat[i]['what']}", consts=tc, spec=("TInit", "TNext"))
    chk.count("figures", len(flat))
    chk.sample(rows[0]["row"]), chk.sample(frows[0]), chk.sample(flat[0]["lines"][:1])
    chk.assumptions.append("Cell error rates are powers of two down to 2^-26, realised with 10^45 shots.")
