"""C12: the collection loop obeys its budget and statistics rules (Collect.tla, CollectTrace.tla)."""
import itertools
import circuits
import collectruns


def budgets(chk):
    rng = chk.rng
    out = []
    for mn, mx, mb in itertools.product([1, 2, 3, 5, 25, 50], [1, 2, 4, 10, 25, 60, 200], [1, 2, 3, 7, 25, 400]):
        if mx / mb > 60:
            continue
        out.append((mn, mx, mb))
    return out


def scenarios(chk):
    rng = chk.rng
    out = []
    policies = [[0], [1.0], [0.5], [0.48], [0.47], [0.49], [1], [2, 0], [0, 0, 3], [5, 0, 0.9], [0.25], [0.1, 0.6], [12], [0.4, 0.56], [10, 0], [9, 1]]
    every = 3 if chk.quick else 1
    k = 0
    for mn, mx, mb in budgets(chk):
        for et, (sn, sd) in itertools.product([0, 1, 2, 5, 11], [(1, 1), (1, 10), (3, 100), (1, 100), (0, 1)]):
            k += 1
            if (k + chk.seed) % every:
                continue
            for pol in rng.sample(policies, 2 if chk.quick else 6):
                out.append(dict(kind="sim", np=rng.choice([1, 2, 3]), par=dict(min=mn, max=mx, batch=mb, err=et, sdn=sn, sdd=sd), policy=pol,
                                runs=[dict(mode="append", out=0, at=0, how="")]))
    for _ in range(600 if chk.quick else 6000):       # arbitrary outcome histories
        mx = rng.choice([10, 30, 100, 300])
        par = dict(min=rng.randrange(1, mx + 10), max=mx, batch=rng.randrange(1 if mx < 50 else 4, mx + 20), err=rng.randrange(0, 25), sdn=rng.choice([1, 1, 2, 7, 0]), sdd=rng.choice([1, 10, 100, 70]))
        pol = [rng.choice([0, 1, 2, 5, 0.48, 0.5, 0.47, 1.0, rng.random() * 0.6]) for _ in range(rng.randrange(1, 9))]
        out.append(dict(kind="sim", np=rng.choice([1, 2, 4]), par=par, policy=pol, runs=[dict(mode="append", out=0, at=0, how="", default_batch=True)]))
    # sequences of outcomes, exhaustively for a small budget
    for par in (dict(min=4, max=40, batch=40, err=3, sdn=1, sdd=1), dict(min=10, max=60, batch=25, err=10, sdn=1, sdd=15)):
        for pol in itertools.product([0, 1, 0.48, 0.5, 1.0], repeat=4):
            out.append(dict(kind="sim", np=2, par=par, policy=list(pol), runs=[dict(mode="append", out=0, at=0, how="")]))
    # no batch limit given at all
    for mn, mx in ((1, 8), (5, 100), (30, 20)):
        for pol in policies:
            out.append(dict(kind="sim", np=2, par=dict(min=mn, max=mx, batch=mx, err=4, sdn=1, sdd=1), policy=pol, runs=[dict(mode="append", out=0, at=0, how="", default_batch=True)]))
    return out


def label(sc):
    return f"collect {sc['kind']} problems={sc['np']} {sc['par']} policy={sc['policy']} runs={[(r['mode'], r['at'], r['how']) for r in sc['runs']]}"


def run(chk):
    for mn, mx, mb, et in [(2, 12, 5, 2), (6, 25, 25, 10)] if chk.quick else [(2, 12, 5, 2), (6, 25, 25, 10), (7, 5, 9, 3), (30, 45, 40, 11)]:
        chk.tlc("Collect", consts=dict(NProblems=1 if mx > 12 else 2, MaxRuns=1, MinS=mn, MaxS=mx, MaxB=mb, ErrT=et, SdNum=1, SdDen=5, CrashesAllowed="FALSE", KeepFile="FALSE"),
                spec=("Spec",), invariants=["NeverOverMax", "NeverOverBatch"], properties=["EnoughShots", "NotTooLong", "Terminates"])
    scs = scenarios(chk)
    kept, rows = circuits.build_rows(chk, collectruns.scenario, scs, label)
    chk.count("sampler_calls", sum(e["k"] == "call" for r in rows for e in r["ev"]))
    chk.validate_traces("CollectTrace", rows, describe=lambda i: label(kept[i]))
    chk.sample(label(kept[0])), chk.sample(label(kept[-1]))
