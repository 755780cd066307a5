"""C15: remaining-work accounting (Work.tla)."""
from fractions import Fraction
import math
import random
import circuits

TICK = 1024


def whole(v, scale):
    return int(v) // scale if v == int(v) and int(v) % scale == 0 else -77


def history(row):
    """Fills in what the implementation reports at every point."""
    from collect_data import ShotData
    sc = row["scale"]
    d = ShotData()
    kept = d.remaining_work(row["ms"] * sc, row["me"] * sc, row["bn"] / row["bd"])      # asked again at every point
    out = []
    for dn, de, dt in row["batches"]:
        d.num_shots += dn * sc
        d.num_correct += (dn - de) * sc
        d.total_processing_seconds += dt / TICK
        w = kept if row["kept"] else d.remaining_work(row["ms"] * sc, row["me"] * sc, row["bn"] / row["bd"])
        n, e, t = d.num_shots // sc, d.num_errors // sc, d.total_processing_seconds * TICK
        rt = w.remaining_time
        if math.isinf(rt):
            f = [1, 0] if rt > 0 else [-1, 1]
        else:
            f = Fraction(rt * TICK).limit_denominator(max(n, e, 1))
            f = [f.numerator, f.denominator] if abs(float(f) - rt * TICK) <= 1e-9 * max(1, abs(rt * TICK)) else [-1, 1]
        assert type(w.finished) is bool or w.finished in (0, 1)
        out.append(dict(n=n, e=e, t=int(t), fin=int(bool(w.finished)), rs=whole(w.remaining_shots, sc), re=whole(w.remaining_errors, sc), rt=f))
    return dict({k: row[k] for k in ("ms", "me", "bn", "bd", "scale")}, pts=out)


def rows_for(chk):
    rng = chk.rng
    rows = []
    thr = [(0, 1), (1, 10), (1, 4), (2, 5), (1, 2), (49, 100), (1, 1), (3, 2), (1, 3)]
    top = 13 if chk.quick else 25
    for ms in (0, 1, 5, 9, 10, 11, 12, top):          # every point (shots, errors) of a small grid, for every limit
        for me in (0, 1, 2, 5, 6, top):
            for bn, bd in thr:
                for n in range(top + 1):
                    rows.append(dict(ms=ms, me=me, bn=bn, bd=bd, scale=1, kept=n % 2, batches=[(n, 0, 7 * n)] + [(0, 1, k % 3) for k in range(n)]))
    for _ in range(1500 if chk.quick else 20000):     # histories
        scale = rng.choice([1, 1, 1, 3, 1000, 10 ** 6, 10 ** 8])
        bn, bd = rng.choice(thr)
        bs = [(0, 0, rng.choice([0, 0, 5]))]
        for _ in range(rng.randrange(1, 12)):
            n = rng.choice([0, 1, 2, 5, 10, 25])
            bs.append((n, rng.choice([0, 0, n, n // 2, rng.randrange(n + 1)]), rng.choice([0, 1, 100, 900])))
        rows.append(dict(ms=rng.choice([0, 1, 10, 50, 100, 150]), me=rng.choice([0, 1, 5, 20, 100]), bn=bn, bd=bd, scale=scale, kept=rng.randrange(2), batches=bs))
    return rows


def run(chk):
    m = (6, 3) if chk.quick else (13, 6)
    chk.tlc("Work", consts=dict(MaxShots=12, MaxErrors=5) if chk.quick else dict(MaxShots=20, MaxErrors=10), env={"TRACES": "/dev/null"},
            spec=("MSpec",), invariants=["Positive", "Enough", "Limit"], properties=["Done"])
    rows = rows_for(chk)
    kept, got = circuits.build_rows(chk, history, rows, lambda r: f"history {r}")
    chk.validate_traces("Work", got, describe=lambda i: f"history {kept[i]}", consts=dict(MaxShots=0, MaxErrors=0), spec=("TInit", "TNext"))
    chk.count("points", sum(len(r["pts"]) for r in got))
    chk.sample(got[-1]), chk.sample(got[len(got) // 3])
