"""C18: descriptions against circuits, the paper's catalogue, code distances (Problems.tla, CodeDistance.tla,
NoiseTrace.tla, DetectorFlow.tla)."""
import contextlib
import functools
import dataclasses
import importlib.util
import inspect
import io
import os
import pathlib
import tempfile
import random
import sys
from unittest import mock
import stim
import check_c08
import circuits
import noisecirc
import vlib

UNIT = 10 ** 7
DECODERS = ["internal", "internal_correlated", "pymatching", "somebody_elses"]


@functools.cache
def paper_module():
    """The catalogue program, loaded once: what it remembers between problems counts."""
    path = vlib.REPO / "src/paper/main_collect_all.py"
    spec = importlib.util.spec_from_file_location("main_collect_all_under_test", path)
    m = importlib.util.module_from_spec(spec)
    old = list(sys.path)
    spec.loader.exec_module(m)
    sys.path[:] = old
    return m


def noise_int(p):
    r = p * UNIT
    return int(round(r)) if abs(r - round(r)) < 1e-6 else -1


def desc(d):
    return dict(w=d.data_width, h=d.data_height, rounds=d.rounds, cd=d.code_distance, nq=d.num_qubits, noise=noise_int(d.noise),
                style=d.circuit_style, obs=d.preserved_observable, dec=d.decoder)


def shows(c, p):
    """What a circuit shows about the experiment it is."""
    coords, acted, amps, oi, last, recs, ticked = {}, set(), set(), set(), [], 0, False

    def amp(args):
        for a in args:
            if p and a:
                r = a / p * 1000
                amps.add(int(round(r)) if abs(r - round(r)) < 1e-6 else -5)
            elif a:
                amps.add(-6)

    def walk(c):
        nonlocal last, recs, ticked
        for op in c:
            if isinstance(op, stim.CircuitRepeatBlock):
                b = op.body_copy()
                r0 = recs
                walk(b)
                recs = r0 + (recs - r0) * op.repeat_count
                continue
            t = op.targets_copy()
            if op.name == "QUBIT_COORDS":
                for x in t:
                    coords[x.value] = tuple(op.gate_args_copy())
            elif op.name in circuits.NOISE:
                if op.name not in ("E", "CORRELATED_ERROR", "ELSE_CORRELATED_ERROR"):
                    amp(op.gate_args_copy())
            elif op.name == "OBSERVABLE_INCLUDE":
                oi.add(int(op.gate_args_copy()[0]))
            elif op.name in ("DETECTOR", "SHIFT_COORDS", "TICK"):
                ticked = ticked or op.name == "TICK"
            else:
                acted.update(x.value for x in t if not x.is_combiner)
                if op.name in ("M", "MX", "MY"):
                    recs += len(t)
                    last, ticked = [] if ticked else last, False
                    last.extend(x.value for x in t)
                    amp(op.gate_args_copy())
                elif op.name == "MPP":
                    recs += len(circuits.mpp_groups(t))
                    amp(op.gate_args_copy())
    walk(c)
    used = set(coords) or acted
    data = set(last)
    ext = [len({coords[q][0] for q in data}), len({coords[q][1] for q in data})] if data and all(q in coords for q in data) else [0, 0]
    return dict(nq=len(used), data=len(data), ext=ext, recs=recs, oi=sorted(oi), amps=sorted(amps))


def problem_row(d, c, *, w, h, n, style, obs, dec, noise):
    return dict(kind="problem", d=desc(d), x=dict(shows(c, noise), w=w, h=h, n=n, style=style, obs=obs, dec=dec, noise=noise_int(noise), full=int(n >= 3)))


def surface_row_kw(d):
    return dict(w=d.data_width, h=d.data_height, n=0, style=d.circuit_style.removeprefix("surface_"), obs=d.preserved_observable, dec=d.decoder, noise=d.noise)


def experiment(cfg):
    """One problem: its fingerprint row and its full noise trace against the noiseless experiment it describes."""
    from honeycomb_layout import HoneycombLayout
    lay = HoneycombLayout(data_width=cfg["w"], data_height=cfg["h"], sub_rounds=cfg["n"], style=cfg["style"], obs=cfg["obs"], noise=cfg["p"])
    pr = lay.as_decoder_problem(cfg["dec"])
    assert lay.as_decoder_problem_desc(cfg["dec"]) == pr.desc
    d, c = pr.desc, pr.circuit_maker()
    rows = [problem_row(d, c, w=cfg["w"], h=cfg["h"], n=cfg["n"], style=cfg["style"], obs=cfg["obs"], dec=cfg["dec"], noise=cfg["p"])]
    lab = lay.legend_label
    lab = lab() if callable(lab) else lab
    ok = f"{cfg['w']}x{cfg['h']}" in lab and (cfg["p"] == 0 or str(cfg["p"]) in lab)
    rows.append(dict(kind="label", ok=int(ok)))
    noise = None
    if cfg["trace"] and cfg["p"]:
        style = d.circuit_style.removeprefix("honeycomb_")
        src = HoneycombLayout(data_width=d.data_width, data_height=d.data_height, sub_rounds=cfg["n"], style=style, obs=d.preserved_observable, noise=0).make_circuit()
        noise = noisecirc.noise_row(src, c, unit=check_c08.unit_for(d.noise), named=style, mpp_p=d.noise)
    return rows, noise


def catalogue_problem(arg):
    """The circuit of the i-th catalogue entry against what the entry itself was asked to be."""
    i, which = arg
    m = paper_module()
    with contextlib.redirect_stderr(io.StringIO()):
        ps = m.honeycomb_problems() if which == "honeycomb" else m.surface_code_problems(f"{vlib.REPO}/src/paper/surface_code_circuits")
    d = ps[i].desc
    c = ps[i].circuit_maker()
    if which == "surface":
        return problem_row(d, c, **surface_row_kw(d))
    return problem_row(d, c, w=d.data_width, h=d.data_height, n=3 * d.rounds, style=d.circuit_style.removeprefix("honeycomb_"), obs=d.preserved_observable, dec=d.decoder, noise=d.noise)


class Captured(Exception):
    pass


def catalogue(chk):
    m = paper_module()
    sdir = f"{vlib.REPO}/src/paper/surface_code_circuits"
    hp, sp = m.honeycomb_problems(), m.surface_code_problems(sdir)
    rows = [dict(kind="catalogue", which="honeycomb", descs=[desc(p.desc) for p in hp]),
            dict(kind="catalogue", which="surface", descs=[desc(p.desc) for p in sp])]
    labels = ["catalogue of honeycomb problems", "catalogue of surface code problems"]
    got = []

    import collect_data
    sig = inspect.signature(collect_data.collect_simulated_experiment_data)

    def stub(*a, **kw):
        kw = dict(sig.bind(*a, **kw).arguments)
        got.append((list(kw.pop("problems")), kw))
    total = len(hp) + len(sp)
    allp = hp + sp

    def capture(fn):
        got.clear()
        with contextlib.redirect_stderr(io.StringIO()), mock.patch.object(collect_data, "collect_simulated_experiment_data", stub), \
                mock.patch.object(m, "collect_simulated_experiment_data", stub, create=True):
            fn()
        assert len(got) == 1, f"the collector was started {len(got)} times"
        return got[0]

    def budget(kw):
        return [str(kw.get("out_path")), kw.get("max_shots"), kw.get("min_seen_logical_errors"), kw.get("max_batch"), int(kw.get("discard_previous_data"))]
    rng = chk.rng

    def selection(i, surf):
        """Asked for in either way, each limit stated or left to its default (-1)."""
        a = dict(out=rng.choice(["None", "x.csv"]), max_shots=rng.choice([-1, rng.randrange(1, 10 ** 6)]), max_errors=rng.choice([-1, rng.randrange(1, 1000)]),
                 max_batch_size=rng.choice([-1, rng.randrange(1, 10 ** 4)]), case_reduction=rng.choice([1, 1, 2, 10, 1000, 999]))
        if rng.random() < 0.5:
            kw = {k: None if a[k] == -1 else a[k] for k in ("max_shots", "max_errors", "max_batch_size") if a[k] != -1 or rng.random() < 0.5}
            ps, kw = capture(lambda: m.collect_data(surface_dir=surf, problem_id=i, case_reduction=a["case_reduction"], out_path=None if a["out"] == "None" else a["out"], **kw))
        else:
            argv = ["main"] + (["--problem_id", str(i)] if i is not None else []) + (["--out_file", a["out"]] if a["out"] != "None" else [])
            argv += [x for k in ("max_shots", "max_errors", "max_batch_size") if a[k] != -1 for x in ("--" + k, str(a[k]))]
            argv += ["--case_reduction", str(a["case_reduction"])] if a["case_reduction"] != 1 else []
            argv += ["--surface_code_problems_directory=" + surf] if surf is not None else []

            def fn():
                old = sys.argv
                sys.argv = argv
                try:
                    m.main()
                finally:
                    sys.argv = old
            ps, kw = capture(fn)
        mine = hp if surf in ("-", "") else allp
        asked = [a["out"], a["max_shots"], a["max_errors"], a["max_batch_size"], a["case_reduction"]]
        if i is None:
            rows.append(dict(kind="catalogue", which="all" if mine is allp else "honeycomb", descs=[desc(p.desc) for p in ps]))
            labels.append(f"everything that is sampled with surface code directory {surf!r}")
            rows.append(dict(kind="select", id=-1, descs=[{} for _ in ps], want={}, total=len(mine), budget=budget(kw), asked=asked))
            labels.append("no selection")
        else:
            rows.append(dict(kind="select", id=i, descs=[desc(p.desc) for p in ps], want=desc(mine[i].desc), total=len(mine), budget=budget(kw), asked=asked))
            labels.append(f"problem {i} selected by number")
    other = "/nonexistent/elsewhere"
    for surf in (None, sdir, other, "-", ""):
        for _ in range(3):
            selection(None, surf)
        for i in rng.sample(range(len(hp) if surf in ("-", "") else total), 20):
            selection(i, surf)
    ids = range(0, total, 7) if chk.quick else range(total)
    for i in list(ids) + [0, total - 1, len(hp) - 1, len(hp)]:
        selection(i, None)
    # Surface code circuits come from the directory that was named.
    with tempfile.TemporaryDirectory(prefix="verif-surface-") as t:
        for k, name in enumerate(sorted(os.listdir(sdir))):
            os.makedirs(f"{t}/{name}")
            base = pathlib.Path(f"{sdir}/{name}/d3_p0.0.stim").read_text()
            pathlib.Path(f"{t}/{name}/d3_p0.0.stim").write_text(base + "\nTICK" * (k + 1) + "\n")
        here, there = ([p for p in ps if p.desc.data_width == 3] for ps in (sp, m.surface_code_problems(t)))
        for p, q in zip(here, there):
            k = sorted(os.listdir(sdir)).index(f"{p.desc.circuit_style[8:].lower()}_{p.desc.preserved_observable}")
            if rng.random() < 0.3:
                rows.append(dict(kind="place", same=int(p.desc == q.desc), added=q.circuit_maker().num_ticks - p.circuit_maker().num_ticks, want=k + 1))
                labels.append(f"{q.desc} from another directory")
    chk.count("selections", sum(r["kind"] == "select" for r in rows))
    return rows, labels, hp, sp


def changes(chk):
    from collect_data import DecodingProblemDesc
    rng = chk.rng
    names = dict(w="data_width", h="data_height", rounds="rounds", cd="code_distance", nq="num_qubits", noise="noise", style="circuit_style", obs="preserved_observable", dec="decoder")
    rows = []
    for k in range(400):
        def value(f):
            return rng.choice([0, 10 ** 4, 25000]) if f == "noise" else rng.choice(["", "a", "b"]) if f in ("style", "obs", "dec") else rng.randrange(0, 5)

        def real(f, v):
            return v / UNIT if f == "noise" else v
        base = {f: value(f) for f in names}
        ch = {f: value(f) for f in names if rng.random() < rng.choice([0.15, 0.5])}
        if not ch:
            ch["w"] = 9
        d = DecodingProblemDesc(**{names[f]: real(f, v) for f, v in base.items()})
        e = d.with_changes(**{names[f]: real(f, v) for f, v in ch.items()})
        rows.append(dict(kind="change", d=base, ch=ch, out=desc(e)))
        assert desc(d) == base, "with_changes changed the original"
    return rows


def surface_flow(arg):
    """A shipped surface-code circuit with X or Z errors on its data qubits in some gaps between rounds."""
    style, obs, d, axis = arg
    c = stim.Circuit.from_file(f"{vlib.REPO}/src/paper/surface_code_circuits/{style.lower()}_{obs}/d{d}_p0.0.stim").flattened()
    moments, cur = [], []
    for op in c:
        cur.append(op)
        if op.name == "TICK":
            moments.append(cur)
            cur = []
    moments.append(cur)
    meas = [i for i, m in enumerate(moments) if any(op.name == "M" for op in m)]
    data = sorted({t.value for op in moments[meas.pop()] if op.name == "M" for t in op.targets_copy()})
    gaps = {meas[0], meas[len(meas) // 2], meas[-1]}
    out = stim.Circuit()
    for i, m in enumerate(moments):
        for op in m:
            out.append(op)
        if i in gaps:
            out.append(axis + "_ERROR", data, 0.001)
    return circuits.flow_row(out, noise=True)


def distances(chk):
    from honeycomb_layout import HoneycombLayout
    rows, labels = [], []
    sizes = [(w, h) for w in (2, 4, 6, 8, 10) for h in (6, 12, 18)] + ([(12, 12), (14, 6), (4, 24)] if chk.quick else [(12, 18), (16, 24), (20, 30), (12, 12), (14, 6), (4, 24), (2, 30), (12, 6), (18, 6)])
    for w, h in sizes:
        s, o = chk.rng.choice(circuits.STYLES), chk.rng.choice("HV")
        lay = HoneycombLayout(data_width=w, data_height=h, sub_rounds=3, style=s, obs=o, noise=0.001)
        rows.append(dict(kind="honeycomb", w=w, h=h, cd=lay.as_decoder_problem_desc("pymatching").code_distance, e=[]))
        labels.append(f"code distance of {w}x{h}")
    rows.sort(key=lambda r: -r["w"] * r["h"])
    labels = [f"code distance of {r['w']}x{r['h']}" for r in rows]
    args = [(s, o, d, a) for s in ("SD6", "SI1000") for o in "XZ" for d in ((3, 7) if chk.quick else (3, 7, 11, 15)) for a in "XZ"]
    kept, flow = circuits.build_rows(chk, surface_flow, args)
    r = chk.validate_traces("DetectorFlow", flow, describe=lambda i: f"surface code {kept[i]}", env={"SCOPE": "SYMPTOMS"})
    faults = [set() for _ in flow]
    for it in r.items:
        if "f" in it:
            faults[it["tr"] - 1].update(frozenset(f) for f in it["f"])
    for a, fs in zip(kept, faults):
        flips = any(x < 0 for f in fs for x in f)
        if flips == (a[3] == a[1]):
            chk.violation(f"surface code {a[:3]}: the observable is {'not ' if not flips else ''}flipped by {a[3]} errors between rounds, so it is not the {a[1]} observable")
        if a[3] != a[1]:
            if any(sum(x > 0 for x in f) > 2 for f in fs):
                raise vlib.MachineryError(f"surface code {a}: a data error seen by more than two detectors")
            e = [(sorted(x for x in f if x > 0) + [0, 0])[:2] + [sum(x < 0 for x in f) % 2] for f in fs]
            rows.append(dict(kind="graph", w=0, h=0, cd=a[2], e=sorted(e)))
            labels.append(f"code distance of surface code {a[:3]}")
    chk.validate_traces("CodeDistance", rows, describe=lambda i: labels[i])
    chk.count("code_distances", len(rows))


def run(chk):
    rng = chk.rng
    rows, labels, hp, sp = catalogue(chk)
    # catalogue circuits
    if chk.quick:
        pick = [i for i, p in enumerate(hp) if p.desc.data_width == 4][:: 1]
        pick += rng.sample([i for i, p in enumerate(hp) if p.desc.data_width == 8], 24) + rng.sample([i for i, p in enumerate(hp) if p.desc.data_width > 8], 8)
        spick = [i for i, p in enumerate(sp) if p.desc.data_width == 3] + rng.sample([i for i, p in enumerate(sp) if p.desc.data_width > 3], 16)
    else:
        pick, spick = range(len(hp)), range(len(sp))
    args = [(i, "honeycomb") for i in pick] + [(i, "surface") for i in spick]
    rng.shuffle(args)
    kept, cat = circuits.build_rows(chk, catalogue_problem, args, lambda a: f"{a[1]} catalogue entry {a[0]}")
    rows += cat
    labels += [f"{a[1]} catalogue entry {a[0]}: {r['d']}" for a, r in zip(kept, cat)]
    chk.count("catalogue_circuits", len(cat))
    # arbitrary experiments
    cfgs = []
    for k in range(260 if chk.quick else 2500):
        w, h = rng.choice([(2, 6), (2, 6), (4, 6), (6, 6), (2, 12), (4, 12), (8, 6), (6, 18), (10, 6)])
        s = rng.choice(circuits.STYLES)
        n = rng.choice([3, 6, 9, 12]) if s == "SI1000" else rng.randrange(1, 20)
        if s == "EM3_v2" and w * h > 30:
            n = min(n, 5)
        cfgs.append(dict(w=w, h=h, n=n, style=s, obs=rng.choice("HV"), p=rng.choice([0, 0.001, 0.002, 0.0001, 0.03, 0.0125, 1e-06]), dec=rng.choice(DECODERS), trace=w * h <= 40 and n <= 8 and k % 2 == 0))
    cfgs = list({str(c): c for c in cfgs}.values())
    kept, got = circuits.build_rows(chk, experiment, cfgs, lambda c: f"problem {c}")
    noise = []
    for c, (rs, nz) in zip(kept, got):
        rows += rs
        labels += [f"problem {c}"] * len(rs)
        if nz:
            noise.append((c, nz))
    ch = changes(chk)
    rows += ch
    labels += [f"with_changes {r['ch']}" for r in ch]
    chk.validate_traces("Problems", rows, describe=lambda i: labels[i])
    chk.validate_traces("NoiseTrace", [n for _, n in noise], describe=lambda i: f"problem {noise[i][0]} against the noiseless experiment it describes")
    distances(chk)
    chk.sample(rows[-len(ch) - 2]), chk.sample(cat[0])
