"""C23: faults fewer than half the distance are corrected (DetectorFlow.tla, Correct.tla)."""
import random
import warnings

import numpy as np
import stim
import circuits
from check_c19 import promised

P = 1e-12        # weights then order explanations by their number of edges


def cfgs(chk):
    rng, out = chk.rng, []

    def add(w, h, n, s, o):
        c = dict(w=w, h=h, n=n, style=s, obs=o, p=P, noise=True)
        if circuits.legal(c) and promised(c) >= 3 and c not in out:
            out.append(c)
    for s in circuits.STYLES:
        for o in "HV":
            wide, big = ((8, 6), (8, 12)) if o == "V" else ((4, 12), (4, 18))
            for n in ((1, 2, 3, 4, 5, 6, 8) if chk.quick else range(1, 16)):
                if s == "EM3_v2" and n > (4 if chk.quick else 9):
                    continue
                add(*wide, n, s, o)
            for n in ((3, 6) if chk.quick else (1, 2, 3, 4, 5, 6, 9, 12)):
                if s == "EM3_v2" and n > (3 if chk.quick else 6):
                    continue
                add(*big, n, s, o)
            if s == "SI1000" or not s.startswith("EM3"):
                add(4, 6, 6, s, o)
            if not chk.quick:
                add(8, 12, 3, s, o), add(12, 6, 3, s, o), add(6, 18, 3, s, o), add(12, 18, 3, s, o)
    return out


def circuit(c):
    from honeycomb_layout import HoneycombLayout
    return HoneycombLayout(data_width=c["w"], data_height=c["h"], sub_rounds=c["n"], style=c["style"], obs=c["obs"], noise=c["p"]).make_circuit()


def choose(rng, faults, parts, t, count):
    """Every single fault, then sets: faults that share detectors, and halves of small unseen logical flips."""
    singles = [[i] for i in range(len(faults))]
    rng.shuffle(singles)
    out = singles[:count]
    at = {}
    for i, f in enumerate(faults):
        for x in f:
            if x > 0:
                at.setdefault(x, []).append(i)
    for k in range(count if t > 1 else 0):
        got = [rng.randrange(len(faults))]
        while sum(parts[i] for i in got) < t:
            near = [j for i in got for x in faults[i] if x > 0 for j in at[x]]
            got.append(rng.choice(near) if near and rng.random() < 0.9 else rng.randrange(len(faults)))
        if len(set(got)) == len(got) and sum(parts[i] for i in got) <= t:
            out.append(got)
    return out


def decode(job):
    from decoding import decode_using_pymatching
    warnings.simplefilter("ignore")
    c, faults, dt = job["cfg"], job["faults"], job["dt"]
    rng = random.Random(job["seed"])
    real = circuit(c)
    nd = real.num_detectors
    other = dict(c, obs="HV"[c["obs"] == "H"])
    # A study decodes many experiments of the same size in one process.
    decoy = circuit(other)
    decode_using_pymatching(circuit=decoy, det_samples=np.zeros((1, decoy.num_detectors), dtype=np.bool_), use_correlated_decoding=False)
    t = (promised(c) - 1) // 2
    cls = lambda f: max(sum(1 for x in f if x > 0 and dt[x - 1] % 2 == k) for k in (0, 1))
    parts = [1 if cls(f) <= 2 else (cls(f) + 1) // 2 for f in faults]
    sets = choose(rng, faults, parts, t, job["count"])
    ident = {frozenset(f): i for i, f in enumerate(faults)}
    for e in [real.shortest_graphlike_error(ignore_ungraphlike_errors=True, canonicalize_circuit_errors=True)]:
        names = [frozenset([x.dem_target.val + 1 if x.dem_target.is_relative_detector_id() else -1 - x.dem_target.val for x in m.dem_error_terms]) for m in e]
        names = [ident[n] for n in names if n in ident]
        for _ in range(30 if len(names) >= t else 0):
            sets.append(rng.sample(names, t))
    dets = np.zeros((len(sets), nd), dtype=np.bool_)
    lits = []
    for k, s in enumerate(sets):
        x = set()
        for i in s:
            x ^= {d for d in faults[i] if d > 0}
        lits.append(sorted(x))
        dets[k, [d - 1 for d in x]] = True
    pred = decode_using_pymatching(circuit=real, det_samples=dets, use_correlated_decoding=False)
    shots = [{"fs": [i + 1 for i in s], "lit": lit, "o": [int(o) for o in np.nonzero(p)[0]]} for s, lit, p in zip(sets, lits, pred)]
    return dict(kind="decode", w=c["w"], h=c["h"], style=c["style"], obs=c["obs"], dt=dt, f=[sorted(f) for f in faults], shots=shots)


def strike(real, rng, k):
    """The circuit with k of its possible faults certain and all others impossible; and how many edges they can be."""
    ops = list(real.flattened())
    spots = []
    for i, op in enumerate(ops):
        t = op.targets_copy()
        if op.name in circuits.NOISE:
            if op.name in ("E", "CORRELATED_ERROR"):
                spots.append((i, 0))
            elif op.name == "DEPOLARIZE2":
                spots += [(i, j) for j in range(0, len(t), 2)]
            else:
                spots += [(i, j) for j in range(len(t))]
        elif op.name in ("M", "MX", "MY", "MPP") and op.gate_args_copy():
            spots += [(i, j) for j in range(len(t) if op.name != "MPP" else len(circuits.mpp_groups(t)))]
    start = rng.randrange(len(spots))
    near = [s for s in spots[start:start + 60]]
    pick = {}
    for s in rng.sample(near if len(near) >= k and rng.random() < 0.7 else spots, k):
        pick.setdefault(s[0], []).append(s[1])
    out = stim.Circuit()
    load = 0
    for i, op in enumerate(ops):
        t = op.targets_copy()
        mine = pick.get(i, [])
        if op.name in circuits.NOISE:
            for j in mine:
                load += 1
                if op.name in ("E", "CORRELATED_ERROR"):
                    out.append("E", t, 1)
                elif op.name == "DEPOLARIZE2":
                    a, b = rng.choice([(a, b) for a in "IXYZ" for b in "IXYZ" if a + b != "II"])
                    load += a != "I" and b != "I"
                    for p, q in ((a, t[j]), (b, t[j + 1])):
                        if p != "I":
                            out.append(f"{p}_ERROR", [q], 1)
                elif op.name == "DEPOLARIZE1":
                    out.append(rng.choice("XYZ") + "_ERROR", [t[j]], 1)
                elif op.name in ("X_ERROR", "Y_ERROR", "Z_ERROR"):
                    out.append(op.name, [t[j]], 1)
                else:
                    raise ValueError(f"unexpected noise {op.name}")
        elif op.name in ("M", "MX", "MY"):
            load += len(mine)
            out.append(op.name, [stim.target_inv(q.value) if (j in mine) != q.is_inverted_result_target else q.value for j, q in enumerate(t)])
        elif op.name == "MPP":
            load += len(mine)
            txt = []
            for j, g in enumerate(circuits.mpp_groups(t)):
                txt.append(("!" if (j in mine) != (sum(x[2] for x in g) % 2 == 1) else "") + "*".join(f"{a}{q - 1}" for a, q, _ in g))
            out.append_from_stim_program_text("MPP " + " ".join(txt))
        else:
            out.append(op)
    return out, load


def struck(job):
    from decoding import sample_decode_count_correct
    warnings.simplefilter("ignore")
    c = job["cfg"]
    rng = random.Random(job["seed"])
    real = circuit(c)
    t = (promised(c) - 1) // 2
    shots = []
    for _ in range(job["count"]):
        f, load = strike(real, rng, rng.randrange(1, t + 1))
        n = rng.choice([1, 3])
        shots.append(dict(load=load, n=n, correct=int(sample_decode_count_correct(circuit=f, model_circuit=real, num_shots=n, decoder="pymatching"))))
    return dict(kind="struck", w=c["w"], h=c["h"], style=c["style"], obs=c["obs"], shots=shots)


def run(chk):
    rng = chk.rng
    mc = dict(Dets="{1, 2}", MaxFaults="4") if chk.quick else dict(Dets="{1, 2, 3}", MaxFaults="4")
    chk.tlc("Correct", consts=mc, env={"TRACES": "/dev/null"}, spec=("MInit", "MNext"), invariants=["Corrected", "Tight"])
    cs = cfgs(chk)
    kept, rows = circuits.build_rows(chk, circuits.honeycomb_flow_row, cs, circuits.cfg_label)
    r = chk.validate_traces("DetectorFlow", rows, describe=lambda i: circuits.cfg_label(kept[i]), env={"SCOPE": "SYMPTOMS"})
    faults = [set() for _ in rows]
    for it in r.items:
        if "f" in it:
            for f in it["f"]:
                faults[it["tr"] - 1].add(frozenset(f))
    jobs = [dict(cfg=c, faults=sorted(map(sorted, fs)), dt=row["dt"], seed=rng.random(), count=400 if chk.quick else 4000) for c, row, fs in zip(kept, rows, faults) if fs]
    jk, drows = circuits.build_rows(chk, decode, jobs, lambda j: circuits.cfg_label(j["cfg"]))
    tc = dict(Dets="{}", MaxFaults="0")
    chk.validate_traces("Correct", drows, describe=lambda i: circuits.cfg_label(jk[i]["cfg"]), consts=tc, spec=("TInit", "TNext"))
    sj = [dict(cfg=c, seed=rng.random(), count=6 if chk.quick else 40) for c in cs]
    sk, srows = circuits.build_rows(chk, struck, sj, lambda j: circuits.cfg_label(j["cfg"]))
    chk.validate_traces("Correct", srows, describe=lambda i: circuits.cfg_label(sk[i]["cfg"]), consts=tc, spec=("TInit", "TNext"))
    chk.count("experiments", len(cs))
    chk.count("fault_sets_decoded", sum(len(x["shots"]) for x in drows))
    chk.count("circuits_with_certain_faults", sum(len(x["shots"]) for x in srows))
    chk.sample(drows[0]["shots"][0]), chk.sample(srows[0]["shots"][0])
    chk.assumptions.append("decoding by PyMatching at a physical error rate of 1e-12")
