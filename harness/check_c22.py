"""C22: figures of recorded data (Plot.tla)."""
import contextlib
import io
import importlib
import math
import random
import re
import sys
from fractions import Fraction

import circuits
import figprog
from check_c20 import UNIT, desc as ldesc, law_items, quiet

ONE = 46000
STYLES = ["surface_SD6", "surface_SI1000", "honeycomb_SD6", "honeycomb_SI1000", "honeycomb_EM3_v2"]


def paper(name):
    import vlib
    p = str(vlib.REPO / "src" / "paper")
    if p not in sys.path:
        sys.path.append(p)
    return importlib.import_module(name)


def units(v):
    return round(v * ONE)


def interval(n, e):
    from collect_data import ShotData
    lo, hi = ShotData(num_shots=n, num_correct=n - e).likely_error_rate_bounds(desired_ratio_vs_max_likelihood=1e-3)
    return units(lo), units(hi)


def milli(i):
    return i / 1000


NOISES = [milli, lambda i: i / 10 ** 8, lambda i: 0.001 + i / 10 ** 9, lambda i: 10.0 ** (i - 12), lambda i: 0.3 + i * 2.0 ** -52, lambda i: i / 70]


def make(recs, value=milli):
    """The records as the project's data, and as the specification sees them."""
    from collect_data import DecodingProblemDesc, ShotData, ProblemShotData
    data, rows = {}, []
    keys = {}
    for k, noise, n, e in recs:
        d = DecodingProblemDesc(data_width=k["w"], data_height=k["h"], code_distance=k["dist"], num_qubits=k["nq"], rounds=k["rounds"],
                                noise=value(noise), circuit_style=k["style"], preserved_observable=k["obs"], decoder=k["dec"])
        assert d not in data
        data[d] = ShotData(num_shots=n, num_correct=n - e, total_processing_seconds=1.5)
        lo, hi = interval(n, e)
        key = keys.setdefault(tuple(sorted(k.items())), len(keys) + 1)
        rows.append(dict(key=key, w=k["w"], h=k["h"], dist=k["dist"], rounds=k["rounds"], style=k["style"], obs=k["obs"], dec=k["dec"],
                         noise=noise, n=n, e=e, lo=lo, hi=hi))
    return ProblemShotData(data), rows


def drawn(ax, value=milli):
    number = {value(i): i for i in range(1, 30)}
    at = lambda x: number.get(float(x), -1)
    lines = []
    for l, poly in zip(ax.get_lines(), ax.collections):
        verts = [tuple(map(float, v)) for path in poly.get_paths() for v in path.vertices]
        xs = sorted({v[0] for v in verts})
        lines.append(dict(label=l.get_label(), pts=[[at(x), units(float(y))] for x, y in zip(l.get_xdata(), l.get_ydata())],
                          band=[[at(x), units(min(b for a, b in verts if a == x)), units(max(b for a, b in verts if a == x))] for x in xs]))
    assert len(ax.get_lines()) == len(ax.collections) == len(lines), "curves and shaded regions do not pair up"
    return lines


def said(text):
    """The number a tick label names (None when it names none)."""
    t = text.replace("\N{MINUS SIGN}", "-").replace(" ", "")
    m = re.fullmatch(r"\$\\mathdefault\{(.*)\}\$", t)
    t = m.group(1) if m else t
    m = re.fullmatch(r"(-?[\d.]+)%", t)
    if m:
        return float(m.group(1)) / 100
    m = re.fullmatch(r"10\^\{(-?\d+)\}", t)
    try:
        return 10.0 ** int(m.group(1)) if m else float(t)
    except ValueError:
        return None


def scales(fig):
    """[place, label] of every labelled tick of the figure's axes, in units of the place / 10^6."""
    out = []
    for ax in fig.get_axes():
        for axis in (ax.xaxis, ax.yaxis):
            labels = axis.get_ticklabels()
            if axis.get_major_formatter().get_offset():     # the numbers count in another unit
                continue
            for p, l in zip(map(float, axis.get_ticklocs()), labels):
                v = said(l.get_text())
                if v is not None and p:
                    out.append([10 ** 6, max(-10 ** 9, min(10 ** 9, round(v / p * 10 ** 6)))])
                elif v is not None:
                    out.append([0, round(v * 10 ** 6)])
    return out


def key(rng, style=None, obs=None, dec=None):
    style = style or rng.choice(STYLES)
    surf = style.startswith("surface")
    d = rng.choice([3, 4, 7])
    cells = rng.choice([1, 2, 3, 3])
    return dict(w=d, h=d if surf else d * 3 // 2, dist=d, nq=rng.choice([17, 24, 60]), rounds=cells * d - rng.choice([0, 0, 1]), style=style,
                obs=obs or rng.choice("XZ" if surf else "HV"), dec=dec or rng.choice(["internal", "internal_correlated"]))


def counts(rng, e):
    if e == 0:
        return rng.choice([20, 100, 1000]), 0
    n = rng.choice([20, 50, 100, 400, 1000])
    return n, rng.choice([max(1, n // 100 * e), max(1, n // 8), max(1, n // 20), n // 3, n // 2, max(1, n * 9 // 20), n * 7 // 10])


def plot_one(job):
    import matplotlib.pyplot as plt
    from plotting import plot_data
    rng = random.Random(job["seed"])
    base = key(rng)
    ks = []
    while len(ks) < job["keys"]:
        k = dict(base)
        for f in rng.sample(sorted(base), rng.choice([1, 1, 2])):
            k[f] = dict(w=rng.choice([2, 3, 4, 6, 8]), h=rng.choice([3, 6, 12, 18]), dist=rng.choice([1, 2, 3, 4]), nq=rng.randrange(1, 999), rounds=rng.choice([2, 3, 6, 7, 9, 12]),
                        style=rng.choice(STYLES), obs=rng.choice("HVXZ"), dec=rng.choice(["internal", "internal_correlated", "pymatching"]))[f]
        if -(-k["rounds"] // k["dist"]) <= 5 and k not in ks:
            ks.append(k)
    recs = [(ks[a - 1], noise, *counts(rng, e)) for a, noise, e in job["world"] if e >= 0]
    rng.shuffle(recs)
    value = rng.choice(NOISES)
    data, rows = make(recs, value)
    title = f"figure {rng.randrange(100)}"
    if rng.random() < 0.5:
        fig, ax = plt.subplots()
        plot_data(data, title=title, fig=fig, ax=ax, legend=rng.random() < 0.5, marker_offset=rng.choice([0, 4]), focus_on_threshold=rng.random() < 0.5)
    else:
        fig, ax = plot_data(data, title=title, focus_on_threshold=rng.random() < 0.5)
    out = dict(kind="data", ticks=scales(fig), recs=rows, lines=drawn(ax, value), title=title, shown=ax.get_title())
    plt.close(fig)
    return out


def panel_records(rng, extra=()):
    ks = []
    for style in STYLES + list(extra):
        for obs in ("XZ" if style.startswith("surface") else "HV"):
            for dec in ("internal", "internal_correlated"):
                for _ in range(rng.choice([0, 1, 1, 2])):
                    k = key(rng, style, obs, dec)
                    if k not in ks:
                        ks.append(k)
    recs = [(k, noise, *counts(rng, rng.choice([0, 1, 2]))) for k in ks for noise in rng.sample(range(1, 9), rng.choice([1, 2, 3]))]
    rng.shuffle(recs)
    return recs


def thresholds(job):
    import matplotlib.pyplot as plt
    mod = paper("main_render_threshold_figure")
    rng = random.Random(job["seed"])
    data, rows = make(panel_records(rng, ["honeycomb_PC3"]))
    if job["prog"]:
        fig = figprog.pick(mod, data, rng, "threshold" if job["focus"] else "threshold_all")
    else:
        fig = mod.plot_thresholds(data, focused=job["focus"])
    out = dict(kind="thr", ticks=scales(fig), focus=job["focus"], recs=rows, panels=grid(fig, 8 if not job["focus"] else 2, lambda ax: dict(lines=drawn(ax))))
    plt.close(fig)
    return out


def grid(fig, nrows, content):
    """Panels by their place in the figure."""
    axes = [a for a in fig.get_axes()]
    place = {}
    for a in axes:
        s = a.get_subplotspec()
        place[s.rowspan.start, s.colspan.start] = a
    return [[dict(title=place[i, j].get_title(), ylabel=place[i, j].get_ylabel(), **content(place[i, j])) for j in range(1 + max(c for _, c in place))]
            for i in range(1 + max(r for r, _ in place))]


def line_fits(job):
    import matplotlib.pyplot as plt
    from collect_data import ProblemShotData
    mod = paper("main_render_lambda_figure")
    rng = random.Random(job["seed"])
    items, recs = [], []
    for style in STYLES:
        for dec in ("internal", "internal_correlated"):
            for noise in rng.sample(range(1, 7), rng.choice([0, 1, 2, 3])):
                ds = sorted(rng.sample([3, 7, 11, 15] if style.startswith("surface") else [4, 8, 12, 16], rng.randrange(2, 5)))
                b4 = rng.choice([1, 2, 3, 4, -1])
                k0 = 7 if b4 < 0 else b4 * ds[0] // 4 + rng.randrange(2, 5)
                ks = [k0 + b4 * (d - ds[0]) // 4 for d in ds]
                items += law_items(style, ds, ks, noise / 1000, dec, 3, rng.choice([4, 1, 6, "h", "v"]), rng)
                recs.append(dict(style=style, dec=dec, obs="", noise=noise, ds=ds, ks=ks))
    rng.shuffle(items)
    with quiet():
        if job["prog"]:
            fig = figprog.pick(mod, ProblemShotData(dict(items)), rng, "linefits" if job["focus"] else "linefits_all")
        else:
            fig, _ = mod.plot_lambda_line_fits_combo(ProblemShotData(dict(items)), focus=job["focus"])

    def content(ax):
        sc = [dict(noise=round(float(c.get_label()) * 1000), pts=[[round(float(x)), round(-math.log2(float(y)) * 10000)] for x, y in c.get_offsets()]) for c in ax.collections]
        fits = []
        for l in ax.get_lines():
            p = sorted(zip(map(float, l.get_ydata()), map(float, l.get_xdata())), reverse=True)
            assert len(p) == 2 and abs(p[0][0] - 1) < 1e-9 and abs(p[1][0] / 1e-13 - 1) < 1e-9
            fits.append([round(p[0][1] * 10000), round(p[1][1] * 10000)])
        return dict(scatter=sc, fits=fits)
    out = dict(kind="fit", ticks=scales(fig), focus=job["focus"], recs=recs, panels=grid(fig, 0, content))
    plt.close(fig)
    return out


def detection(job):
    import matplotlib.pyplot as plt
    mod = paper("main_render_detection_fraction_figure")
    rng = random.Random(job["seed"])
    recs = panel_records(rng, ["honeycomb_EM3", "honeycomb_PC3"])
    data, rows = make(recs)
    by = {}
    for r in rows:
        by.setdefault((r["dist"], Fraction(r["e"], r["n"])), [r["e"], r["n"]])
    fig = figprog.pick(mod, data, rng, "detectionfraction") if job["prog"] else mod.plot_detection_fraction(data)
    panels = []
    for ax in fig.get_axes():
        lines = []
        for l in ax.get_lines():
            pts = []
            for x, y in zip(l.get_xdata(), l.get_ydata()):
                hit = [f for (d, f) in by if abs(float(f) - float(y)) < 1e-9]
                pts.append([round(float(x)), hit[0].numerator, hit[0].denominator] if hit else [round(float(x)), -1, 1])
            lines.append(dict(noise=round(float(l.get_label()) * 1000), pts=pts))
        panels.append(dict(title=ax.get_title(), lines=lines))
    ticks = scales(fig)
    plt.close(fig)
    slim = []
    for r in rows:
        f = Fraction(r["e"], r["n"])
        slim.append(dict(style=r["style"], noise=r["noise"], dist=r["dist"], e=f.numerator, n=f.denominator))
    return dict(kind="det", ticks=ticks, recs=slim, panels=panels)


def one(job):
    return dict(data=plot_one, thr=thresholds, fit=line_fits, det=detection)[job["kind"]](job)


def run(chk):
    rng = chk.rng
    q = chk.quick
    r = chk.tlc("Plot", consts=dict(Keys="{1, 2}", Noises="{1, 2}" if q else "{1, 2, 3}", Errs="{0, 1}"), env={"TRACES": "/dev/null"}, spec=("MInit", "MNext"),
                invariants=["Ascending", "Complete", "Report"])
    jobs = []
    worlds = [w["r"] for w in r.items]
    for w in worlds if q else worlds * 2:
        jobs.append(dict(kind="data", keys=2, world=w, seed=rng.random()))
    for _ in range(150 if q else 1500):
        k = rng.choice([1, 3, 4, 6])
        jobs.append(dict(kind="data", keys=k, world=[[a, x, rng.choice([-1, 0, 1, 2])] for a in range(1, k + 1) for x in range(1, 8)], seed=rng.random()))
    for k in (31, 45, 120):
        jobs.append(dict(kind="data", keys=k, world=[[a, x, 1] for a in range(1, k + 1) for x in (1, 2)], seed=rng.random()))
    for kind, n in (("thr", 24), ("fit", 32), ("det", 24)):
        for i in range(n if q else n * 8):
            jobs.append(dict(kind=kind, focus=i % 2 == 1, prog=i % 4 >= 2, seed=rng.random()))
    rng.shuffle(jobs)
    kept, rows = circuits.build_rows(chk, one, jobs, lambda j: f"figure {j}")
    chk.validate_traces("Plot", rows, consts=dict(Keys="{}", Noises="{}", Errs="{}"), spec=("TInit", "TNext"), describe=lambda i: f"figure {kept[i]}")
    for kind in ("data", "thr", "fit", "det"):
        chk.count(f"figures_{kind}", sum(x["kind"] == kind for x in rows))
    chk.count("figures_by_the_programs", sum(bool(j.get("prog")) for j in kept))
    chk.sample(next(x for x in rows if x["kind"] == "data"))
