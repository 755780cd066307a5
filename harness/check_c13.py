"""C13: crash/restart safety of recorded data (Collect.tla, CollectTrace.tla)."""
import circuits
import collectruns
from check_c12 import label


def scenarios(chk):
    rng = chk.rng
    P1 = dict(min=2, max=6, batch=4, err=3, sdn=1, sdd=1)
    P2 = dict(min=5, max=5, batch=5, err=1, sdn=1, sdd=1)
    bases = [dict(kind="sim", np=2, par=P1, policy=[0, 1]), dict(kind="sim", np=3, par=P2, policy=[2, 0, 5]),
             dict(kind="frac", np=3, par=P1, policy=[0], shots=7, frac=[[4, 1], [3, 3], [5, 0]])]
    out = []

    def R(mode, at=0, how="exit", o=1):
        return dict(mode=mode, out=o, at=at, how=how)
    for b in bases:
        n = collectruns.count_lines(dict(b, runs=[R("append")])) + 2
        points = list(range(1, n + 1))
        callpts = [-1, -2, -3] if b["kind"] == "sim" else []
        out.append(dict(b, runs=[R("append"), R("append"), R("discard"), R("append")]))
        out.append(dict(b, runs=[R("append", o=0), R("discard", o=0)]))
        out.append(dict(b, runs=[R("append"), R("discard", o=0), R("append", o=0), R("append")]))
        out.append(dict(b, init="empty", runs=[R("append"), R("append")]))
        out.append(dict(b, relative=1, runs=[R("append"), R("append")]))
        out.append(dict(b, np=0, runs=[R("append"), R("append"), R("discard")]))
        for f in range(len(collectruns.FOREIGN)):       # a file not written by this program
            out.append(dict(b, init=f, runs=[R("append"), R("append")]))
            out.append(dict(b, init=f, runs=[R("append", o=0), R("append"), R("discard"), R("append")]))
            out.append(dict(b, init=f, runs=[R("append", rng.choice(points), rng.choice(["exit", "interrupt"])), R("append")]))
        for how in ("exit", "interrupt"):
            for k in callpts + points:
                modes = ("append", "discard")
                out.append(dict(b, runs=[R("append", k, how), R("append")]))
                if chk.quick and how == "interrupt" and k % 2:
                    continue
                out.append(dict(b, runs=[R("append"), R(modes[k % 2], k, how), R("append"), R("append")]))
                out.append(dict(b, runs=[R("append"), R(modes[(k + 1) % 2], k, how), R("append")]))
                if not chk.quick:
                    for j in points:
                        out.append(dict(b, runs=[R("append", k, how), R(rng.choice(modes), j, rng.choice(["exit", "interrupt"])), R("append")]))
        if b["kind"] == "frac":      # many shots, many detectors (some of them in several machine words)
            for shots in (1, 2, 255, 1024, 4097, 8193, 16385, 65537, 100_001, 262_145):
                wide = [[4, 1], [3, 3], [5, 0]] if shots > 5000 else [[65, 33], [130, 0], [257, 257]]
                out.append(dict(b, shots=shots, frac=wide, runs=[R("append"), R("append")]))
        for _ in range(200 if chk.quick else 2000):
            rs = [R(rng.choice(["append", "append", "discard"]), rng.choice([0] + points + callpts), rng.choice(["exit", "interrupt"]), rng.random() < 0.93)
                  for _ in range(rng.randrange(2, 7))]
            for r in rs:
                r["out"] = int(r["out"])
            out.append(dict(b, runs=rs, init=rng.choice([None, None, "empty"])))
    return out


def run(chk):
    for runs, crash in ((3, "TRUE"), (4, "TRUE")) if chk.quick else ((3, "TRUE"), (4, "TRUE"), (5, "TRUE")):
        chk.tlc("Collect", consts=dict(NProblems=2, MaxRuns=runs, MinS=1, MaxS=2, MaxB=1, ErrT=1, SdNum=1, SdDen=1, CrashesAllowed=crash, KeepFile="TRUE"),
                spec=("Init", "Next"), invariants=["HeaderFirst", "Recorded"], properties=["OnDiskBeforeNext", "OnlyDiscardLoses"])
    scs = scenarios(chk)
    kept, rows = circuits.build_rows(chk, collectruns.scenario, scs, label)
    chk.count("crash_points_executed", sum(r["at"] != 0 for s in kept for r in s["runs"]))
    chk.count("runs_that_died", sum(e["k"] == "crash" for r in rows for e in r["ev"]))
    chk.validate_traces("CollectTrace", rows, describe=lambda i: label(kept[i]))
    chk.sample(label(kept[0])), chk.sample(label(kept[-1]))
