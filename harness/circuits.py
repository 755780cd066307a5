"""Projection of stim circuits to the flat event lists the TLA+ trace specifications read.

The projection is purely syntactic: loops are unrolled, coordinates are doubled, qubits become
1-based, measurement look-backs become positive offsets.  Nothing here knows the honeycomb code.
"""
import stim
from vlib import rational

GATES1 = {"I", "X", "Y", "Z", "H", "H_XY", "H_YZ", "C_XYZ", "C_ZYX", "S", "S_DAG", "SQRT_X", "SQRT_X_DAG", "SQRT_Y", "SQRT_Y_DAG"}
GATES2 = {"CX", "CY", "CZ", "XCX", "XCY", "XCZ", "YCX", "YCY", "YCZ"}
NOISE = {"DEPOLARIZE1", "DEPOLARIZE2", "X_ERROR", "Y_ERROR", "Z_ERROR", "E", "CORRELATED_ERROR", "ELSE_CORRELATED_ERROR",
         "PAULI_CHANNEL_1", "PAULI_CHANNEL_2"}


def unroll(circuit):
    for op in circuit:
        if isinstance(op, stim.CircuitRepeatBlock):
            body = op.body_copy()
            for _ in range(op.repeat_count):
                yield from unroll(body)
        else:
            yield op


def _int(v):
    r = round(v)
    return r if abs(v - r) < 1e-9 else -999999


def split_disjoint(groups):
    """Split a list of target groups into runs in which no qubit occurs twice."""
    run, seen = [], set()
    for g in groups:
        if seen & set(g) or len(set(g)) < len(g):
            if run:
                yield run
            run, seen = [], set()
        run.append(g)
        seen |= set(g)
    if run:
        yield run


def mpp_groups(targets):
    groups, cur, expect = [], [], True
    k = 0
    while k < len(targets):
        t = targets[k]
        if t.is_combiner:
            k += 1
            continue
        axis = "X" if t.is_x_target else "Y" if t.is_y_target else "Z"
        item = [axis, t.value + 1, 1 if t.is_inverted_result_target else 0]
        if cur and targets[k - 1].is_combiner:
            cur.append(item)
        else:
            if cur:
                groups.append(cur)
            cur = [item]
        k += 1
    if cur:
        groups.append(cur)
    return groups


def events(circuit, *, keep_noise=False, keep_ticks=False, keep_args=False):
    """Returns (coords, events)."""
    nq = circuit.num_qubits
    coords = [[] for _ in range(nq)]
    ev = []
    for op in unroll(circuit):
        name = op.name
        t = op.targets_copy()
        args = op.gate_args_copy()
        if name == "QUBIT_COORDS":
            for x in t:
                coords[x.value] = [_int(2 * a) for a in args]
        elif name in ("R", "RX", "RY"):
            ev.append({"o": name, "t": [x.value + 1 for x in t]})
        elif name in GATES1:
            for run in split_disjoint([[x.value + 1] for x in t]):
                ev.append({"o": "G", "g": name, "t": [g[0] for g in run]})
        elif name in GATES2:
            qs = [x.value + 1 for x in t]
            for run in split_disjoint([qs[k:k + 2] for k in range(0, len(qs), 2)]):
                m, r = [0] * nq, [0] * nq
                for a, b in run:
                    m[a - 1], m[b - 1], r[a - 1], r[b - 1] = b, a, 1, 2
                ev.append({"o": "P", "g": name, "m": m, "r": r})
        elif name in ("M", "MX", "MY"):
            for run in split_disjoint([[x.value + 1] for x in t]):
                ix = [0] * nq
                for i, g in enumerate(run):
                    ix[g[0] - 1] = i + 1
                ev.append({"o": "M", "g": name, "t": [g[0] for g in run], "ix": ix})
                if keep_args:
                    ev[-1]["nz"] = 1 if args and args[0] > 0 else 0
        elif name == "MPP":
            groups = mpp_groups(t)
            k = 0
            for run in split_disjoint([tuple(x[1] for x in g) for g in groups]):
                gs = groups[k:k + len(run)]
                k += len(run)
                ix = [0] * nq
                role = [0] * nq
                for i, g in enumerate(gs):
                    for j, x in enumerate(g):
                        ix[x[1] - 1] = i + 1
                        role[x[1] - 1] = j + 1
                ev.append({"o": "MPP", "g": gs, "ix": ix, "r": role})
                if keep_args:
                    ev[-1]["nz"] = 1 if args and args[0] > 0 else 0
        elif name == "DETECTOR":
            c = [_int(2 * a) if i < 2 else _int(a) for i, a in enumerate(args)]
            if not (ev and ev[-1]["o"] == "DET"):
                ev.append({"o": "DET", "d": []})
            ev[-1]["d"].append({"r": [-x.value for x in t], "c": c})
        elif name == "OBSERVABLE_INCLUDE":
            ev.append({"o": "OBS", "i": int(args[0]), "r": [-x.value for x in t]})
        elif name == "SHIFT_COORDS":
            ev.append({"o": "SHIFT", "c": [_int(2 * a) if i < 2 else _int(a) for i, a in enumerate(args)]})
        elif name == "TICK":
            if keep_ticks:
                ev.append({"o": "TICK"})
        elif name in NOISE:
            if keep_noise:
                if name in ("E", "CORRELATED_ERROR"):
                    ev.append({"o": "E", "t": [["X" if x.is_x_target else "Y" if x.is_y_target else "Z", x.value + 1] for x in t]})
                else:
                    ev.append({"o": "N", "g": name, "t": [x.value + 1 for x in t]})
        else:
            ev.append({"o": "??" + name})
    return coords, ev


def honeycomb_row(cfg):
    """cfg: dict(w,h,n,style,obs,p). Builds the circuit with the code under test."""
    from honeycomb_layout import HoneycombLayout
    lay = HoneycombLayout(data_width=cfg["w"], data_height=cfg["h"], sub_rounds=cfg["n"], style=cfg["style"],
                          obs=cfg["obs"], noise=cfg["p"])
    c = lay.make_circuit()
    co, ev = events(c)
    return {"w": cfg["w"], "h": cfg["h"], "n": cfg["n"], "style": cfg["style"], "obs": cfg["obs"], "co": co, "ev": ev}


STYLES = ["SD6", "PC3", "EM3", "EM3_v2", "SI1000"]


def _safe(args):
    fn, cfg = args
    try:
        return {"row": fn(cfg)}
    except Exception as ex:      # an exception of the code under test on a legal input
        import traceback
        return {"exc": f"{type(ex).__name__}: {ex}", "tb": traceback.format_exc()[-800:]}


def pool_map(fn, cfgs, chunksize=1):
    """Runs the code under test on every cfg in parallel worker processes."""
    import multiprocessing as mp
    from vlib import NCPU
    cfgs = list(cfgs)
    if len(cfgs) < 4:
        return [_safe((fn, c)) for c in cfgs]
    with mp.get_context("fork").Pool(NCPU) as pool:
        return pool.map(_safe, [(fn, c) for c in cfgs], chunksize=chunksize)


def build_rows(chk, fn, cfgs, label=str):
    """pool_map, reporting exceptions as violations; returns (kept cfgs, rows)."""
    kept, rows = [], []
    for c, r in zip(cfgs, pool_map(fn, cfgs)):
        if "exc" in r:
            chk.violation(f"{label(c)}: raised {r['exc']}", r["tb"])
        else:
            kept.append(c)
            rows.append(r["row"])
    return kept, rows


def legal(c):
    return c["style"] != "SI1000" or c["n"] % 3 == 0


def honeycomb_cfgs(chk, budget=1.0):
    """The experiments a honeycomb check looks at. Deterministic for a seed; every (style, observable,
    residue and loop shape) on the smallest patch, then rotating sizes, long runs and paper sizes."""
    rng = chk.rng
    out = []

    def add(w, h, n, s, o, p=0.001):
        c = dict(w=w, h=h, n=n, style=s, obs=o, p=p)
        if legal(c) and c not in out:
            out.append(c)
    top = 20 if chk.quick else 61
    for s in STYLES:
        for o in "HV":
            for n in range(1, top + 1):
                add(2, 6, n, s, o, 0 if (s == "EM3_v2" and n > 14) else 0.001)
            for n in (1, 2, 3, 4, 6, 7, 9, 10, 12, 14):
                add(4, 12, n, s, o, 0 if s == "EM3_v2" and n > 4 else 0.001)
    sizes = [(w, h) for w in (2, 4, 6, 8, 10) for h in (6, 12, 18, 24) if (w, h) not in ((2, 6), (4, 12))]
    extra = 40 if chk.quick else 260
    for i in range(extra):
        w, h = sizes[(i * 7 + chk.seed) % len(sizes)]
        s = STYLES[i % 5]
        n = rng.choice([3, 6, 9, 12, 15, 24]) if s == "SI1000" else rng.choice(list(range(1, 31)))
        if w * h > 100 and n > 12:
            n = 3 * (n // 6 + 1)
        add(w, h, n, s, rng.choice("HV"), 0 if s == "EM3_v2" and w * h * n > 300 else rng.choice([0, 0.001, 0.01]))
    for s in STYLES:
        o = rng.choice("HV")
        for n in rng.sample(range(32, 110), 3 if chk.quick else 12) + [99, 102]:
            add(2, 6, n if s != "SI1000" else n - n % 3, s, o, 0 if s == "EM3_v2" else 0.001)
        base = rng.choice([300, 301, 302])
        add(2, 6, 300 if s == "SI1000" else base, s, rng.choice("HV"), 0)
    if chk.pid in ("C02", "C04", "C05"):               # very long runs
        for s in STYLES:
            for _ in range(1 if chk.quick else 4):
                n = rng.randrange(1500, 2600 if chk.quick else 6000)
                add(2, 6, n - n % 3 if s == "SI1000" else n, s, rng.choice("HV"), 0)
    if not chk.quick:
        for u in (1, 2, 3):
            for s in STYLES:
                for o in "HV":
                    add(4 * u, 6 * u, 4 * u * 3 * 3, s, o, 0)
        for s in STYLES:
            for o in "HV":
                for d in (0, 1, 2):
                    add(2, 6, 1002 + d, s, o, 0)
    return out


def cfg_label(c):
    return "{style} {w}x{h} n={n} obs={obs} p={p}".format(**c)


def flow_row(circuit, *, noise=False):
    """Row for DetectorFlow: every measurement target carries the detectors (positive) and observables
    (negative) its record takes part in."""
    nq = circuit.num_qubits
    ops = list(unroll(circuit))
    member = {}
    nrec = ndet = 0
    dt, shift = [], 0
    for op in ops:
        if op.name == "SHIFT_COORDS":
            a = op.gate_args_copy()
            shift += a[2] if len(a) > 2 else 0
        if op.name == "DETECTOR":
            a = op.gate_args_copy()
            dt.append(int(round(shift + (a[2] if len(a) > 2 else 0))))
        if op.name in ("M", "MX", "MY"):
            nrec += len(op.targets_copy())
        elif op.name == "MPP":
            nrec += len(mpp_groups(op.targets_copy()))
        elif op.name in ("DETECTOR", "OBSERVABLE_INCLUDE"):
            if op.name == "DETECTOR":
                ndet += 1
                d = ndet
            else:
                d = -1 - int(op.gate_args_copy()[0])
            for t in op.targets_copy():
                k = nrec + t.value
                if k < 0:
                    raise ValueError("record before the start of the circuit")
                member.setdefault(k, set()).symmetric_difference_update({d})
    _, ev = events(circuit, keep_noise=noise, keep_args=True)
    k = 0
    out = []
    for e in ev:
        if e["o"] in ("DET", "OBS", "SHIFT", "TICK"):
            continue
        if e["o"] in ("M", "MPP"):
            n = len(e["t"] if e["o"] == "M" else e["g"])
            e["s"] = [sorted(member.get(k + i, ())) for i in range(n)]
            k += n
        out.append(e)
    assert k == nrec
    return {"nq": nq, "ev": out, "dt": dt}


def honeycomb_flow_row(cfg):
    from honeycomb_layout import HoneycombLayout
    lay = HoneycombLayout(data_width=cfg["w"], data_height=cfg["h"], sub_rounds=cfg["n"], style=cfg["style"],
                          obs=cfg["obs"], noise=cfg["p"])
    return flow_row(lay.make_circuit(), noise=cfg.get("noise", False))
