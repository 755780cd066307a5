"""C09: the measurement tracker against its state machine (MeasureTracker.tla)."""
import itertools
import random
import stim
import circuits

KEYS = [["a", 1 + 2j, ("e", 3), 7, frozenset([1]), "b"], [0j, 1j, 2 + 1j, -1j, 0.5j, 3]]


class Driver:
    def __init__(self, names):
        from measure_tracker import MeasurementTracker, Prev
        self.m, self.Prev, self.names, self.ev = MeasurementTracker(), Prev, names, []
        self.circuit = stim.Circuit()

    def key(self, k, back, rng=None):
        v = self.names[k - 1]
        if back == 0:
            return v if rng is None or rng.random() < 0.8 else self.Prev(v, 0)
        if rng is None:
            return self.Prev(v, offset=back) if back != 1 else self.Prev(v)
        while back:
            step = rng.randrange(1, back + 1)
            v = self.Prev(v, step) if step > 1 or rng.random() < 0.5 else self.Prev(v)
            back -= step
        return v

    def do(self, e, rng=None):
        m = self.m
        if e["k"] == "meas":
            m.add_measurements(*[self.names[k - 1] for k in e["keys"]])
        elif e["k"] == "dummy":
            m.add_dummies(*[self.names[k - 1] for k in e["keys"]], obstacle=bool(e["obs"]))
        elif e["k"] == "group":
            e["err"] = 0
            ks = [self.key(k, b, rng) for k, b in e["q"]]
            try:
                m.add_group(*ks, group_key=self.names[e["gk"] - 1])
            except Exception:
                e["err"] = 1
        else:
            ks = [self.key(k, b, rng) for k, b in e["q"]]
            kw = {"for_time_after_measurement": self.names[e["after"] - 1]} if e["after"] else {}
            e["offs"] = []
            via = e.pop("via")
            try:
                if via == 0:
                    r = m.get_record_targets(*ks, **kw)
                    if r is not None:
                        r = [x.value for x in r]
                else:
                    c = stim.Circuit("M 0")
                    m.append_detector(*ks, out_circuit=c, coords=[1, 2, 3], **kw)
                    if len(c) == 1:
                        r = None
                    else:
                        assert len(c) == 2 and c[1].name == "DETECTOR" and c[1].gate_args_copy() == [1, 2, 3]
                        r = [x.value for x in c[1].targets_copy()]
                e["res"] = "none" if r is None else "ok"
                e["offs"] = r or []
            except Exception:
                e["res"] = "err"
        self.ev.append(e)


def q(keys, after=0, via=0):
    return {"k": "query", "q": [list(x) for x in keys], "after": after, "via": via}


def _small(job):
    ops, names = job
    d = Driver(names)
    for o in ops:
        d.do(dict(o))
        if o["k"] == "group" or o is ops[-1]:
            for k in (1, 2, 3):
                for b in (0, 1, 2):
                    d.do(q([(k, b)], via=b % 2))
    for x in ([(1, 0), (2, 0)], [(1, 0), (1, 0)], [(1, 0), (1, 1)], [(3, 0), (1, 0)], [(3, 0), (3, 1), (2, 0)], []):
        d.do(q(x, via=1))
        d.do(q(x, after=2))
    return {"nkeys": 3, "ev": d.ev}


def _random(seed):
    rng = random.Random(seed)
    n = rng.randrange(2, 7)
    d = Driver(KEYS[seed % 2])
    for _ in range(rng.randrange(5, 40)):
        x = rng.random()

        def ks(lo, hi):
            return [(rng.randrange(1, n + 1), rng.choice([0, 0, 0, 1, 1, 2, 3])) for _ in range(rng.randrange(lo, hi))]
        if x < 0.25:
            d.do({"k": "meas", "keys": [rng.randrange(1, n + 1) for _ in range(rng.randrange(0, 4))]})
        elif x < 0.33:
            d.do({"k": "dummy", "keys": [rng.randrange(1, n + 1) for _ in range(rng.randrange(1, 3))], "obs": int(rng.random() < 0.35)})
        elif x < 0.55:
            d.do({"k": "group", "q": ks(0, 4), "gk": rng.randrange(1, n + 1)}, rng)
        else:
            d.do(q(ks(0, 5), after=rng.choice([0, 0, 0, rng.randrange(1, n + 1)]), via=rng.randrange(2)), rng)
    return {"nkeys": n, "ev": d.ev}


def _long(seed):
    """Histories far longer than the experiments': hundreds of values per key, questions about all of them."""
    rng = random.Random(seed)
    n = rng.randrange(2, 4)
    d = Driver(KEYS[seed % 2])
    total = [0] * n
    for _ in range(rng.randrange(3, 7)):
        many = rng.choice([20, 70, 140, 260])
        ks = [rng.choice(range(1, n + 1)) for _ in range(many)]
        if rng.random() < 0.3:
            d.do({"k": "dummy", "keys": ks[:10], "obs": 0})
            for k in ks[:10]:
                total[k - 1] += 1
        d.do({"k": "meas", "keys": ks})
        for k in ks:
            total[k - 1] += 1

        def past(count):
            out = []
            for _ in range(count):
                k = rng.randrange(1, n + 1)
                out.append((k, rng.choice([0, rng.randrange(total[k - 1] + 1), max(0, total[k - 1] - rng.choice([1, 1, 0, 2]))])))
            return out
        if rng.random() < 0.6:
            gk = rng.randrange(1, n + 1)
            d.do({"k": "group", "q": past(rng.choice([1, 3, 40])), "gk": gk}, rng)
            total[gk - 1] += 1 - d.ev[-1]["err"]
        for _ in range(6):
            d.do(q(past(rng.choice([1, 1, 2, 12, 60])), after=rng.choice([0, 0, rng.randrange(1, n + 1)]), via=rng.randrange(2)), rng)
    return {"nkeys": n, "ev": d.ev}


def run(chk):
    ops = [{"k": "meas", "keys": [1]}, {"k": "meas", "keys": [2, 1]}, {"k": "meas", "keys": [3]}, {"k": "dummy", "keys": [1], "obs": 0}, {"k": "dummy", "keys": [2], "obs": 1},
           {"k": "group", "q": [[1, 0], [2, 0]], "gk": 3}, {"k": "group", "q": [[1, 1], [1, 0]], "gk": 2}, {"k": "group", "q": [[3, 0], [1, 0]], "gk": 3}, {"k": "group", "q": [], "gk": 1},
           {"k": "group", "q": [[1, 0]], "gk": 1}]
    jobs = [(seq, KEYS[i % 2]) for n in range(1, 4 if chk.quick else 5) for i, seq in enumerate(itertools.product(ops, repeat=n))]
    if not chk.quick:
        jobs = jobs[:1110] + jobs[1110::2]
    _, r1 = circuits.build_rows(chk, _small, jobs, lambda j: f"tracker history {j[0]}")
    seeds = [chk.rng.randrange(10 ** 9) for _ in range(3000 if chk.quick else 40000)]
    _, r2 = circuits.build_rows(chk, _random, seeds, lambda s: f"tracker history seed {s}")
    seeds = [chk.rng.randrange(10 ** 9) for _ in range(60 if chk.quick else 800)]
    _, r3 = circuits.build_rows(chk, _long, seeds, lambda s: f"long tracker history seed {s}")
    rows = r1 + r2 + r3
    chk.validate_traces("MeasureTracker", rows, describe=lambda i: f"tracker history {str(rows[i]['ev'])[:300]}")
    chk.count("exhaustive_histories", len(r1))
    chk.count("calls", sum(len(r["ev"]) for r in rows))
    chk.count("obstacle_answers", sum(e.get("res") == "none" for r in rows for e in r["ev"]))
    chk.count("refused_questions", sum(e.get("res") == "err" for r in rows for e in r["ev"]))
    chk.sample(rows[0]["ev"][:4]), chk.sample(rows[-1]["ev"][:6])
