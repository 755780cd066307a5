"""C16: searches and likelihood intervals (Search.tla)."""
import itertools
import random
import circuits

INF = 10 ** 6
ONE = 1 << 14


def exhaustive(arg):
    """Every non-decreasing table of the given length over a few values, every target, some range offsets."""
    from probability_util import binary_search
    n, top, infinities = arg
    rng = random.Random(n * 100 + top)
    out = []
    levels = list(range(0, 2 * top, 2))
    if infinities:
        levels = [-INF] + levels + [INF]
    for v in itertools.combinations_with_replacement(levels, n):
        lo = rng.choice([0, 0, 1, -3, 1000])
        for t in range(-2, 2 * top + 1):
            if all(abs(y) == INF for y in v):
                continue
            sc = 2.0 ** rng.choice([1, 1, 1, 24, 40, -24])
            real = [y / sc if abs(y) < INF else (float("inf") if y > 0 else float("-inf")) for y in v]

            def f(x):
                if not lo <= x < lo + n:
                    raise ValueError("function evaluated outside the range")
                return real[x - lo]
            x = binary_search(func=f, min_x=lo, max_x=lo + n - 1, target=t / sc)
            out.append(dict(kind="table", lo=lo, v=list(v), t=t, x=int(x)))
    return {"cs": out}


def tables(seed):
    from probability_util import binary_search
    rng = random.Random(seed)
    out = []
    for _ in range(6):
        n = rng.choice([1, 2, 3, 7, 40, 200])
        lo = rng.choice([0, 1, -50, 10 ** 6, -10 ** 8])
        y, v = rng.randrange(-50, 50), []
        for _ in range(n):
            y += rng.choice([0, 0, 1, 2, 7, 300])
            v.append(y)
        t = rng.choice([rng.choice(v), rng.randrange(v[0] - 5, v[-1] + 5)])
        sc = rng.choice([1, 2, 4, 1024, 2.0 ** 24, 2.0 ** 36, 2.0 ** 50, 2.0 ** -20])
        x = binary_search(func=lambda x: v[x - lo] / sc, min_x=lo, max_x=lo + n - 1, target=t / sc)
        out.append(dict(kind="table", lo=lo, v=v, t=t, x=int(x)))
    for _ in range(10):
        a, b = rng.choice([0, 1, 2, 5, 19]), rng.randrange(-100, 100)
        lo = rng.choice([-10 ** 7, -5, 0, 3])
        hi = lo + rng.choice([0, 1, 10, 10 ** 6, 10 ** 7])
        t = rng.choice([a * rng.randint(lo, hi) + b + rng.randrange(-a - 1, a + 2), rng.randrange(-10 ** 8, 10 ** 8)])
        sc = 2.0 ** rng.choice([0, 0, 10, 24, 36, 50, -20])
        x = binary_search(func=lambda x: (a * x + b) / sc, min_x=lo, max_x=hi, target=t / sc)
        out.append(dict(kind="line", a=a, b=b, lo=lo, hi=hi, t=t, x=int(x)))
    return {"cs": out}


def crossing(seed):
    from probability_util import binary_intercept
    rng = random.Random(seed)
    out = []
    for _ in range(20):
        n = rng.randrange(2, 9)
        lo = rng.randrange(-6, 4)
        shape = rng.choice(["rise", "fall", "vee", "cap"])
        steps = [rng.choice([0, 1, 1, 2, 5, 8]) for _ in range(n - 1)]
        steps[0], steps[-1] = max(1, steps[0]), max(1, steps[-1])
        if shape == "fall":
            steps = [-s for s in steps]
        turn = rng.randrange(0, n)
        if shape in ("vee", "cap"):
            if n < 3:
                continue
            turn = rng.randrange(1, n - 1)
            sg = 1 if shape == "vee" else -1
            steps = [sg * (s if i >= turn else -s) for i, s in enumerate(steps)]
        v = [rng.randrange(-20, 20)]
        for s in steps:
            v.append(v[-1] + s)

        def f(x):
            i = min(max(int((x - lo) // 1), 0), n - 2)
            return v[i] + (v[i + 1] - v[i]) * (x - lo - i)
        start = lo + turn if shape in ("vee", "cap") else rng.randrange(4 * (lo - 3), 4 * (lo + n + 3)) / 4
        d = rng.choice([1, -1])
        off = rng.choice([0, 1, 2, 7, 30, 1 / 4, 5 / 8])
        up = {"rise": d > 0, "fall": d < 0, "vee": True, "cap": False}[shape]
        t = f(start) + (off if up else -off)
        atol = rng.choice([1, 1 / 4, 1 / 64, 1 / 256])
        step = d * rng.choice([1, 1, 0.5, 0.25, 2, 8])
        x = binary_intercept(func=f, start_x=start, step=step, target_y=t, atol=atol)
        out.append(dict(kind="cross", lo=lo, v=v, start=int(start * ONE), dir=d, t=round(t * ONE), atol=round(atol * ONE), x=round(float(x) * ONE)))
    return {"cs": out}


def fine(seed):
    """Lines, parabolas and cubics whose crossing must be located among up to 2^45 tolerances."""
    from probability_util import binary_intercept
    rng = random.Random(seed)
    out = []
    while len(out) < 20:
        far = 2 ** rng.randrange(0, 20) * rng.choice([1, 3, 5]) + rng.choice([0, 1, 1 / 8])
        a, start, d = rng.choice([1, -1]) * 2.0 ** rng.randrange(-10, 20), rng.choice([0, 0, 3, -1000]), rng.choice([1, -1])
        power = rng.choice([1, 1, 1, 2, 3])

        def f(x):
            return a * (x - start) ** power + 7
        t = f(start + d * far)
        scale = abs(f(start + d * far * 2) - f(start))
        atol = scale * 2.0 ** -rng.choice([3, 10, 20, 30, 38, 42])
        if (abs(a) * (2 * far + abs(start)) ** power + 7) * 2 ** -50 > atol / 4:       # beyond what floats can tell apart
            continue
        step = d * rng.choice([1, 0.25, 2.0 ** -12, 5, far, 3 * far])
        x = binary_intercept(func=f, start_x=start, step=step, target_y=t, atol=atol)
        out.append(dict(kind="fine", side=int((x - start) * d >= 0), res=min(10 ** 9, round(1000 * abs(f(x) - t) / atol)), far=str(far), a=str(a), start=start, step=str(step), power=power, atol=str(atol)))
    return {"cs": out}


def binom(seed):
    import math
    import numpy as np
    from probability_util import log_binomial
    rng = random.Random(seed)
    out = []
    for _ in range(6):
        n = rng.choice([0, 1, 2, 3, 5, 12, 19, 20, 21, 40, 100, 300])
        h = rng.choice([0, n, min(n, 1), n // 2, rng.randrange(n + 1), n - min(n, 1)])
        m = rng.choice([1, 2, 3, 10, 1000])
        a = sorted({-1, 0, 1, m - 1, m, m + 1, rng.randrange(m + 1), min(m, max(0, m * h // max(n, 1)))})
        rng.shuffle(a)
        got = log_binomial(p=np.array(a) / m, n=n, hits=h)
        for x, g in zip(a, got):
            if g < -600 and not math.isinf(g):
                continue
            f, e = math.frexp(math.exp(g))
            out.append(dict(kind="binom", n=n, h=h, m=m, a=x, inf=int(math.isinf(g) and g < 0), em=int(f * 2 ** 30), ee=e - 30))
    return {"cs": out}


def interval(args):
    from collect_data import ShotData
    out = []
    for n, k, rn, rd, *rest in args:
        rp = rest[0] if rest else 1
        lo, hi = ShotData(num_shots=n, num_correct=n - k).likely_error_rate_bounds(desired_ratio_vs_max_likelihood=(rn / rd) ** rp)
        lo, hi = float(lo), float(hi)
        inside = int(0 <= lo <= k / n * (1 + 1e-12) and k / n * (1 - 1e-12) <= hi <= 1)
        # (ends far outside are clamped: TLC's integers have 32 bits, and a clamped end is as wrong)
        at = lambda x, m: 0 if x != x else round(max(0, min(m, x)))
        if n >= 10 ** 7 and k <= 60:      # Poisson limit: the same ends, in errors, as for a million shots
            out.append(dict(kind="interval", n=10 ** 6, k=k, rn=rn, rd=rd, rp=rp, inside=inside, low=at(lo * 100 * n, 10 ** 8), high=at(hi * 100 * n, 10 ** 8)))
        elif n >= 10 ** 7:
            out.append(dict(kind="wide", n=n, c=100 * k // n, rd=rd, inside=inside, low=at((k / n - lo) * n, 46000), high=at((hi - k / n) * n, 46000)))
        else:
            out.append(dict(kind="interval", n=n, k=k, rn=rn, rd=rd, rp=rp, inside=inside, low=at(lo * 100 * n, 100 * n), high=at(hi * 100 * n, 100 * n)))
    return {"cs": out}


def run(chk):
    rng, q = chk.rng, chk.quick
    jobs = [(exhaustive, (n, top, inf)) for n in range(1, 6 if q else 8) for top in (2, 4) for inf in (False, True)]
    jobs += [(tables, rng.randrange(10 ** 9)) for _ in range(300 if q else 4000)]
    jobs += [(crossing, rng.randrange(10 ** 9)) for _ in range(400 if q else 6000)]
    jobs += [(fine, rng.randrange(10 ** 9)) for _ in range(60 if q else 2000)]
    jobs += [(binom, rng.randrange(10 ** 9)) for _ in range(60 if q else 1500)]
    iv = [(n, k, rn, rd) for n in range(1, 13 if q else 31) for k in range(n + 1) for rn, rd in ((1, 2), (1, 10), (1, 1000), (9, 10))]
    for _ in range(900 if q else 10000):
        n = rng.choice([25, 100, 777, 10 ** 3, 4096, 10 ** 4, 32768, 10 ** 5, 10 ** 6])
        k = rng.choice([0, 1, 2, 10, 1000, n // 2, n // 3, n - 1, n, rng.randrange(n + 1), rng.randrange(n // 10 + 1)])
        if 0 <= k <= n:
            iv.append((n, k, 1, rng.choice([2, 10, 100, 1000, 100000]), rng.choice([1, 1, 1, 2, 5, 12, 30, 60])))
    for n in (10 ** 7, 10 ** 8):
        for c in (1, 5, 10, 30, 48, 50, 75) if n == 10 ** 7 else (10, 30, 45, 50):
            for rd in (2, 10, 100, 1000):
                if (n // 10000) * c * (100 - c) * 14 / 1 < 2 ** 31:
                    iv.append((n, n * c // 100, 1, rd))
    for n in (10 ** 7, 10 ** 8, 10 ** 9, 3 * 10 ** 10):
        iv += [(n, k, 1, rd) for k in (0, 1, 2, 3, 7, 12, 20, 41, 60) for rd in (2, 10, 1000)]
    rng.shuffle(iv)
    jobs += [(interval, iv[i::120]) for i in range(120)]
    rows, labels = [], []
    for fn in (exhaustive, tables, crossing, fine, binom, interval):
        mine = [a for f, a in jobs if f is fn]
        kept, got = circuits.build_rows(chk, fn, mine, lambda a, fn=fn: f"{fn.__name__} {str(a)[:200]}")
        rows += [g for g in got if g["cs"]]
        labels += [f"{fn.__name__} {str(a)[:100]}" for a, g in zip(kept, got) if g["cs"]]
    chk.validate_traces("Search", rows, describe=lambda i: labels[i])
    chk.count("cases", sum(len(r["cs"]) for r in rows))
    chk.count("likelihood_intervals", len(iv))
    chk.sample(rows[0]["cs"][0]), chk.sample(rows[-1]["cs"][0])
    chk.assumptions.append("interval ends are judged to one unit of 1/(100 n) and one percent of likelihood (three for 10^7 shots and more)")
