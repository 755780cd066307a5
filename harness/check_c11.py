"""C11: decoders and the count of rightly predicted shots (Decode.tla)."""
import itertools
import json
import os
import random
import shutil
import stat
import sys
import tempfile
import numpy as np
import stim
import circuits

BLANK = dict(err=[], shots=[], real=[], obs=[], file=[], ans=[], given=0, count=-1, n=0, demok=1, corr=0, wantcorr=0)


def errors_circuit(err, nd, no, prob):
    """One qubit per error; detectors and observables are parities of the qubits whose error flips them."""
    n = len(err)
    c = stim.Circuit()
    if n:
        c.append("R", range(n))
        for i, e in enumerate(err):
            p = prob(i)
            if p:
                c.append("X_ERROR", [i], p)
        c.append("M", range(n))
    for d in range(nd):
        c.append("DETECTOR", [stim.target_rec(i - n) for i, e in enumerate(err) if d in e["d"]])
    for o in range(no):
        c.append("OBSERVABLE_INCLUDE", [stim.target_rec(i - n) for i, e in enumerate(err) if o in e["f"]], o)
    return c


def random_graph(rng):
    nd, no = rng.choice([(1, 1), (2, 1), (3, 1), (3, 2), (4, 1), (4, 2), (5, 3), (3, 0), (2, 3), (5, 2), (1, 2)])
    pool = [[d] for d in range(nd)] + [list(x) for x in itertools.combinations(range(nd), 2)]
    rng.shuffle(pool)
    err = []
    for d in pool[:rng.randrange(1, 8)]:
        err.append({"d": d, "f": sorted(rng.sample(range(no), rng.choice([0, 0, 1, min(2, no)]) if no else 0)), "w": rng.choice([1, 2, 3, 4, 5])})
    if no and rng.random() < 0.15:
        err.append({"d": [], "f": [rng.randrange(no)], "w": 4})
    rng.shuffle(err)
    return err, nd, no


def prob(e):
    return 1 / (1 + 2 ** e["w"])


def _xor(err, S, key):
    out = set()
    for i in S:
        out ^= set(err[i][key])
    return sorted(out)


def _match(seed):
    from decoding import decode_using_pymatching
    rng = random.Random(seed)
    err, nd, no = random_graph(rng)
    c = errors_circuit(err, nd, no, lambda i: prob(err[i]))
    syn = sorted({tuple(_xor(err, S, "d")) for k in range(len(err) + 1) for S in itertools.combinations(range(len(err)), k)})
    rng.shuffle(syn)
    dets = np.zeros((len(syn), nd), dtype=np.bool_)
    for k, s in enumerate(syn):
        dets[k, list(s)] = True
    pred = decode_using_pymatching(circuit=c, det_samples=dets, use_correlated_decoding=False)
    assert pred.shape == (len(syn), no), pred.shape
    return dict(BLANK, kind="match", err=err, n=len(syn), shots=[{"s": list(s), "o": [int(x) for x in np.nonzero(p)[0]]} for s, p in zip(syn, pred)])


def _wide(seed):
    """Many independent pieces in one circuit, shots that concern one piece each: that piece explains them."""
    from decoding import decode_using_pymatching
    rng = random.Random(seed)
    no = rng.choice([1, 2, 3])
    pieces, err, nd = [], [], 0
    while nd < rng.choice([70, 140, 260]):
        e, d, _ = random_graph(rng)
        e = [{"d": x["d"], "f": sorted({o for o in x["f"] if o < no}), "w": x["w"]} for x in e if x["d"]]
        pieces.append((nd, d, e))
        err += [{"d": [nd + k for k in x["d"]], "f": x["f"], "w": x["w"]} for x in e]
        nd += d
    c = errors_circuit(err, nd, no, lambda i: prob(err[i]))
    shots = [(i, s) for i, (_, _, e) in enumerate(pieces)
             for s in sorted({tuple(_xor(e, S, "d")) for k in range(len(e) + 1) for S in itertools.combinations(range(len(e)), k)})]
    rng.shuffle(shots)
    dets = np.zeros((len(shots), nd), dtype=np.bool_)
    for k, (i, s) in enumerate(shots):
        dets[k, [pieces[i][0] + d for d in s]] = True
    pred = decode_using_pymatching(circuit=c, det_samples=dets, use_correlated_decoding=False)
    assert pred.shape == (len(shots), no), pred.shape
    said = {}
    for (i, s), p in zip(shots, pred):
        said.setdefault(i, []).append({"s": list(s), "o": [int(x) for x in np.nonzero(p)[0]]})
    return [dict(BLANK, kind="match", err=pieces[i][2], n=len(v), shots=v) for i, v in said.items()]


def _count(seed, sizes=(1, 2, 7, 64)):
    from decoding import sample_decode_count_correct
    rng = random.Random(seed)
    err, nd, no = random_graph(rng)
    real = [i for i in range(len(err)) if rng.random() < 0.4]
    c = errors_circuit(err, nd, no, lambda i: 1 if i in real else 0)
    m = errors_circuit(err, nd, no, lambda i: prob(err[i]))
    n = rng.choice(sizes)
    got = sample_decode_count_correct(circuit=c, model_circuit=m, num_shots=n, decoder="pymatching")
    return dict(BLANK, kind="count", err=err, real=[i + 1 for i in real], n=n, count=int(got))


def _many(seed):
    """Batches far larger than any one buffer."""
    return _count(seed, (2 ** 16 + 1, 70_000, 100_001, 2 ** 17 + 5))


def _single(seed):
    """No model circuit: every syndrome has one explanation, so all shots are right; or one of the errors is
    undetectable and certain, so none is."""
    from decoding import sample_decode_count_correct
    rng = random.Random(seed)
    nd, no = rng.randrange(1, 5), rng.randrange(0, 4)
    err = [{"d": [d], "f": sorted(rng.sample(range(no), rng.randrange(0, no + 1))), "w": rng.randrange(1, 4)} for d in range(nd) if d == 0 or rng.random() < 0.8]
    n = rng.choice([1, 5, 40])
    got = sample_decode_count_correct(circuit=errors_circuit(err, nd, no, lambda i: prob(err[i])), num_shots=n, decoder="pymatching")
    return dict(BLANK, kind="count", err=err, real=[], n=n, count=int(got))


STUB = '''#!%s
import json, sys
a = sys.argv[1:]
opt = lambda k: a[a.index(k) + 1]
plan = json.load(open("%s"))
shots = [l.split() for l in open(opt("-dets_fname")).read().split("\\n")]
if shots and shots[-1] == []: shots.pop()
log = {"shots": [[int(x[1:]) for x in s[1:]] if s and s[0] == "shot" else [-5] for s in shots], "dem": open(opt("-dem_fname")).read(),
       "corr": [f for f in ("-cheap_corr", "-edge_corr", "-node_corr") if f in a], "mode": opt("-mode"), "ans": []}
with open(opt("-out"), "w") as f:
    for i, s in enumerate(log["shots"]):
        t = [len(set(o) & set(s)) %% 2 for o in plan["obs"]]
        if plan["flip"]:
            t = [x ^ y for x, y in zip(t, plan["flip"][i %% len(plan["flip"])])]
        log["ans"].append(t)
        f.write("".join(map(str, t)) + "\\n")
json.dump(log, open("%s", "w"))
sys.exit(plan["exit"])
'''


def _file(seed):
    import decoding
    rng = random.Random(seed)
    nd, no = rng.choice([(1, 1), (2, 1), (3, 2), (5, 3), (4, 0), (6, 1), (12, 2), (80, 1), (300, 2)])
    obs = [sorted(rng.sample(range(nd), rng.randrange(0, nd + 1))) for _ in range(no)]
    c = stim.Circuit(f"X_ERROR({rng.choice([0.5, 0.2, 0.05])}) {' '.join(map(str, range(nd)))}\nM {' '.join(map(str, range(nd)))}")
    m = stim.Circuit(f"X_ERROR(0.125) {' '.join(map(str, range(nd)))}\nM {' '.join(map(str, range(nd)))}")
    for x in (c, m):
        for d in range(nd):
            x.append("DETECTOR", [stim.target_rec(d - nd)])
        for o in range(no):
            x.append("OBSERVABLE_INCLUDE", [stim.target_rec(d - nd) for d in obs[o]], o)
    n = rng.choice([1, 2, 3, 10, 33])
    corr = rng.random() < 0.5
    direct = rng.random() < 0.5
    use_model = rng.random() < 0.5
    scratch = tempfile.mkdtemp(prefix="verif-decode-")
    old, old_err = os.getcwd(), sys.stderr
    try:
        # (the decoder may lie in the working directory, in its src directory or in the one above)
        os.makedirs(f"{scratch}/w/src")
        os.chdir(f"{scratch}/w")
        binary = rng.choice(["./", "src/", "../"]) + "internal_decoder.binary"
        plan = {"obs": obs, "flip": [[int(rng.random() < 0.3) for _ in range(no)] for _ in range(rng.randrange(0, 6))], "exit": 0}
        json.dump(plan, open(f"{scratch}/plan.json", "w"))
        with open(binary, "w") as f:
            f.write(STUB % (sys.executable, f"{scratch}/plan.json", f"{scratch}/log.json"))
        os.chmod(binary, os.stat(binary).st_mode | stat.S_IXUSR)
        row = dict(BLANK, kind="file", n=n, obs=obs, wantcorr=int(corr))
        if direct:
            dets = np.array([[rng.random() < 0.4 for _ in range(nd)] for _ in range(n)], dtype=np.bool_).reshape(n, nd)
            p = decoding.decode_using_internal_decoder(circuit=m, det_samples=dets, use_correlated_decoding=corr)
            assert p.shape == (n, no), p.shape
            row["shots"] = [{"s": [int(x) for x in np.nonzero(a)[0]], "o": [int(x) for x in b]} for a, b in zip(dets, p)]
            row["given"] = 1
            want = m
        else:
            kw = {"model_circuit": m} if use_model else {}
            row["count"] = int(decoding.sample_decode_count_correct(circuit=c, num_shots=n, decoder="internal_correlated" if corr else "internal", **kw))
            want = m if use_model else c
        log = json.load(open(f"{scratch}/log.json"))
        row["file"], row["ans"] = log["shots"], log["ans"]
        row["corr"] = int(len(log["corr"]) == 3) if len(log["corr"]) in (0, 3) else 2
        row["demok"] = int(stim.DetectorErrorModel(log["dem"]).approx_equals(want.detector_error_model(decompose_errors=True), atol=1e-6) and log["mode"] == "fi_match_from_dem")
        return row
    finally:
        os.chdir(old)
        shutil.rmtree(scratch, ignore_errors=True)


def refusals(chk):
    import decoding
    c = stim.Circuit("X_ERROR(0.1) 0\nM 0\nDETECTOR rec[-1]\nOBSERVABLE_INCLUDE(0) rec[-1]")
    scratch = tempfile.mkdtemp(prefix="verif-decode-")
    old = os.getcwd()
    os.mkdir(scratch + "/x")
    os.chdir(scratch + "/x")
    try:
        for name in ("", "internal2", "PYMATCHING", "pymatching_correlated", "mwpm", None):
            try:
                r = decoding.sample_decode_count_correct(circuit=c, num_shots=3, decoder=name)
                chk.violation(f"unknown decoder {name!r} was accepted (result {r})")
            except Exception:
                chk.count("refused_decoders")
        for name in ("internal", "internal_correlated"):
            try:
                r = decoding.sample_decode_count_correct(circuit=c, num_shots=3, decoder=name)
                chk.violation(f"decoder {name!r} returned {r} without an external decoder")
            except Exception:
                chk.count("refused_decoders")
        try:
            decoding.sample_decode_count_correct(circuit=c, model_circuit=stim.Circuit("M 0"), num_shots=3, decoder="pymatching")
            chk.violation("a model circuit with other detectors than the sampled circuit was accepted")
        except Exception:
            chk.count("refused_decoders")
    finally:
        os.chdir(old)
        shutil.rmtree(scratch, ignore_errors=True)


def run(chk):
    k = 1 if chk.quick else 10
    rows, labels = [], []
    for fn, n, what in ((_match, 700 * k, "matching"), (_wide, 8 * k, "matching in a wide circuit"), (_count, 300 * k, "count with a model circuit"), (_many, 24 * k, "count of a large batch with a model circuit"), (_single, 120 * k, "count"), (_file, 200 * k, "external decoder")):
        seeds = [chk.rng.randrange(10 ** 9) for _ in range(n)]
        kept, r = circuits.build_rows(chk, fn, seeds, lambda s, what=what: f"{what} experiment seed {s}")
        for s, x in zip(kept, r):
            x = x if isinstance(x, list) else [x]
            rows += x
            labels += [f"{what} experiment seed {s}"] * len(x)
    refusals(chk)
    chk.validate_traces("Decode", rows, describe=lambda i: f"{labels[i]} {str({k: v for k, v in rows[i].items() if v})[:500]}")
    chk.count("syndromes_decoded", sum(len(r["shots"]) for r in rows if r["kind"] == "match"))
    chk.sample({k: v for k, v in rows[0].items() if v}), chk.sample({k: v for k, v in rows[-1].items() if v})
