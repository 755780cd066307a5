"""C10: the decoding graph against the detector-error-model interpreter (DemGraph.tla)."""
import collections
import math
import random
import re
from fractions import Fraction
import stim
import circuits


def tree(m):
    out = []
    for ins in m:
        if isinstance(ins, stim.DemRepeatBlock):
            out.append({"o": "rep", "n": ins.repeat_count, "b": tree(ins.body_copy())})
        elif ins.type == "error":
            comps = [{"d": [], "f": []}]
            for t in ins.targets_copy():
                if t.is_separator():
                    comps.append({"d": [], "f": []})
                elif t.is_relative_detector_id():
                    comps[-1]["d"].append(t.val)
                else:
                    comps[-1]["f"].append(t.val)
            k = ins.args_copy()[0] * 16
            assert k == int(k)
            out.append({"o": "error", "p": int(k), "c": comps})
        elif ins.type == "shift_detectors":
            out.append({"o": "shift", "n": int(ins.targets_copy()[0]), "a": [int(round(2 * x)) for x in ins.args_copy()]})
        elif ins.type == "detector":
            out.append({"o": "det", "d": [t.val for t in ins.targets_copy()], "a": [int(round(2 * x)) for x in ins.args_copy()]})
        else:
            out.append({"o": "obs"})
    return out


def frac(x):
    f = Fraction(round(x * 2 ** 30), 2 ** 30)       # 1 - 2P is dyadic for these probabilities
    return [f.numerator, f.denominator] if abs(float(f) - x) < 1e-12 else [-7, 0]


def graph_row(text):
    from decoding import detector_error_model_to_nx_graph
    m = stim.DetectorErrorModel(text)
    row = {"prog": tree(m), "nd": m.num_detectors, "exc": 0, "edges": [], "nodes": [], "boundary": []}
    heavy = any(sum(t.is_relative_detector_id() for t in part) > 2 for ins in m.flattened() if ins.type == "error" and ins.args_copy()[0] > 0
                for part in split(ins.targets_copy()))
    try:
        g = detector_error_model_to_nx_graph(m)
    except Exception:
        if not heavy:
            raise
        row["exc"] = 1
        return row
    for a, b, d in g.edges(data=True):
        p = d["error_probability"]
        ok = 0 < p < 1 and abs(d["weight"] - math.log((1 - p) / p)) < 1e-9 * max(1, abs(d["weight"]))
        row["edges"].append([a, b, sorted(d["qubit_id"]), *frac(1 - 2 * p), int(ok)])
    for v, d in sorted(g.nodes(data=True)):
        if d.get("is_boundary"):
            row["boundary"].append(v)
        c = d.get("coords")
        row["nodes"].append([v, [-99] if c is None else [int(round(2 * x)) if abs(2 * x - round(2 * x)) < 1e-9 else -98 for x in c]])
    return row


def split(targets):
    out = [[]]
    for t in targets:
        if t.is_separator():
            out.append([])
        else:
            out[-1].append(t)
    return out


def block(rng, depth, refusable):
    lines = []
    for _ in range(rng.randrange(1, 7)):
        x = rng.random()
        if x < 0.55:
            comps = []
            for _ in range(rng.choice([1, 1, 1, 2, 3])):
                nd = rng.choice([0, 1, 1, 2, 2, 2, 2] + ([3] if refusable else []))
                ds = rng.sample(range(4), nd)
                fs = rng.sample(range(3), rng.choice([0, 0, 1, 1, 2]))
                ts = [f"D{d}" for d in ds] + [f"L{f}" for f in fs]
                if rng.random() < 0.3:
                    rng.shuffle(ts)
                comps.append(" ".join(ts) or "L0")
            lines.append(f"error({rng.choice([0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 12]) / 16}) " + " ^ ".join(comps))
        elif x < 0.7:
            a = [rng.randrange(-3, 4) / 2 for _ in range(rng.randrange(0, 5))]
            lines.append(f"shift_detectors{'(' + ', '.join(map(str, a)) + ')' if a else ''} {rng.choice([0, 0, 1, 1, 2, 3])}")
        elif x < 0.83:
            a = [rng.randrange(-3, 9) / 2 for _ in range(rng.randrange(0, 5))]
            lines.append(f"detector{'(' + ', '.join(map(str, a)) + ')' if a else ''} " + " ".join(f"D{d}" for d in rng.sample(range(5), 1)))
        elif x < 0.88:
            lines.append(f"logical_observable L{rng.randrange(4)}")
        elif depth < 3:
            lines += [f"repeat {rng.randrange(1, 4)} {{", *block(rng, depth + 1, refusable), "}"]
    return lines or ["error(0.125) D0"]


def _random(seed):
    rng = random.Random(seed)
    while True:
        text = "\n".join(block(rng, 0, rng.random() < 0.1))
        m = stim.DetectorErrorModel(text)
        flat = [i for i in m.flattened() if i.type == "error"]
        cnt = collections.Counter()
        for i in flat:
            for part in split(i.targets_copy()):
                cnt[frozenset(t.val for t in part if t.is_relative_detector_id())] += 1
        if len(flat) <= 60 and max([v for k, v in cnt.items() if k], default=0) <= 5:
            break
    row = graph_row(text)
    row["label"] = f"error model {text!r}"
    return row


def _real(cfg):
    from honeycomb_layout import HoneycombLayout
    lay = HoneycombLayout(data_width=cfg["w"], data_height=cfg["h"], sub_rounds=cfg["n"], style=cfg["style"], obs=cfg["obs"], noise=0.001)
    m = lay.make_circuit().detector_error_model(decompose_errors=True, ignore_decomposition_failures=False) if cfg["style"] != "EM3_v2" else \
        lay.make_circuit().detector_error_model(decompose_errors=True, approximate_disjoint_errors=True)
    k = [0]

    def p(_):
        k[0] += 1
        return "error(%s)" % (0.25 if k[0] % 7 else 0.75)
    text = re.sub(r"error\([^)]*\)", p, str(m))
    row = graph_row(text)
    row["label"] = "error model of " + circuits.cfg_label(cfg)
    return row


def run(chk):
    seeds = [chk.rng.randrange(10 ** 9) for _ in range(2500 if chk.quick else 30000)]
    _, r1 = circuits.build_rows(chk, _random, seeds, lambda s: f"error model seed {s}")
    cfgs = [dict(w=2, h=6, n=n, style=s, obs=o, p=0.001) for s in circuits.STYLES for o in "HV" for n in ((3, 12) if chk.quick else (1, 3, 6, 7, 12, 15))]
    cfgs = [c for c in cfgs if circuits.legal(c)]
    _, r2 = circuits.build_rows(chk, _real, cfgs, circuits.cfg_label)
    rows = r1 + r2
    labels = [r.pop("label") for r in rows]
    chk.validate_traces("DemGraph", rows, describe=lambda i: labels[i])
    chk.count("edges", sum(len(r["edges"]) for r in rows))
    chk.count("refused_models", sum(r["exc"] for r in rows))
    chk.count("honeycomb_models", len(r2))
    chk.sample(labels[0]), chk.sample(labels[-1])
    chk.assumptions.append("probabilities are multiples of 1/16 below 1; the log-odds formula itself is evaluated in floating point by the projection")
