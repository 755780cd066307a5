"""C24: a study's history accounts for every shot (Study.tla generates, StudyTrace.tla judges).

Collectors run as real processes stopped inside every sampler call, so that two of them interleave on one file in
the order the specification chose; the drivers (main_collect_all, main_example) and the aggregator are the real programs."""
import contextlib
import inspect
import io
import json
import os
import select
import shutil
import sys
import tempfile
import random
import check_c14
import check_c18
import circuits
import collectruns
import vlib

FRAC = [None, None, (5, 2), (7, 0)]      # detectors, and how many of them always fire, of the fraction problems
REAL = None                               # the program's sampler
EXAMPLE = []                              # (desc, circuit) of the experiments main_example says it collects
CAT = []                                  # (number, desc, circuit) of some experiments of the paper's catalogue


def table():
    """Experiment number -> description as it must be read back."""
    _, descs = collectruns.problems(4, lambda i, c: c, [(1, 0), (1, 0)] + FRAC[2:])
    out = [descs[0][0], descs[1][0]]
    out += [d.with_changes(preserved_observable="-", decoder="detection_fraction") for d, _ in descs[2:]]
    return out + [d for _, d, _ in CAT] + [d for d, _ in EXAMPLE]


class Child:
    """A process that collects: order() has it begin a run; say() lets the sampler call it is in return. It outlives
    its runs unless one of them is told to exit."""

    def __init__(self):
        up_r, up_w = os.pipe()
        dn_r, dn_w = os.pipe()
        self.pid = os.fork()
        if self.pid == 0:
            code = 3
            try:
                os.close(up_r), os.close(dn_w)
                null = os.open(os.devnull, os.O_WRONLY)
                os.dup2(null, 1), os.dup2(null, 2)
                sys.stdout = open(1, "w", closefd=False)
                sys.stderr = open(2, "w", closefd=False)
                src = os.fdopen(dn_r, "r")

                def emit(m):
                    os.write(up_w, (json.dumps(m) + "\n").encode())

                def hear():
                    line = src.readline()
                    if not line:
                        os._exit(0)
                    return json.loads(line)
                while True:
                    m = hear()
                    try:
                        serve(m, emit, hear)
                        emit({"k": "end"})
                    except BaseException as ex:
                        emit({"k": "exc", "x": f"{type(ex).__name__}: {ex}", "planned": int(bool(getattr(ex, "planned", 0)))})
            finally:
                os._exit(code)
        os.close(up_w), os.close(dn_r)
        self.up, self.dn, self.dead, self.buf = up_r, dn_w, False, b""
        self.waiting = {"k": "idle"}

    def listen(self):
        while b"\n" not in self.buf:
            if not select.select([self.up], [], [], 240)[0]:
                raise vlib.MachineryError("a collector neither sampled nor ended for 240 s")
            more = os.read(self.up, 4096)
            if not more:
                break
            self.buf += more
        line, _, self.buf = self.buf.partition(b"\n")
        self.waiting = json.loads(line) if line else {"k": "gone"}
        if not line:
            self.close()

    def say(self, m):
        os.write(self.dn, (json.dumps(m) + "\n").encode())
        self.listen()

    order = say

    def close(self):
        if not self.dead:
            self.dead = True
            os.close(self.up), os.close(self.dn)
            os.waitpid(self.pid, 0)


class _Stop(KeyboardInterrupt):
    planned = True


class _Fail(ValueError):
    planned = True


def serve(m, emit, hear):
    """One run in the collecting process, with a sampler that reports each call and waits for its answer."""
    import collect_data as cd
    import decoding
    _, descs = collectruns.problems(4, lambda i, c: c, [(1, 0), (1, 0)] + FRAC[2:])
    every = {i + 1: p for i, p in enumerate(descs)}
    every.update({5 + i: p[1:] for i, p in enumerate(CAT)})
    every.update({5 + len(CAT) + i: p for i, p in enumerate(EXAMPLE)})
    sig = inspect.signature(REAL)

    def stub(*a, **kw):
        b = sig.bind(*a, **kw)
        b.apply_defaults()
        which = [x for x in m["known"] if every[x][0].decoder == b.arguments["decoder"] and every[x][1] == b.arguments["circuit"]]
        n = int(b.arguments["num_shots"])
        emit({"k": "call", "x": which[0] if which else 0, "n": n})
        r = hear()
        if r["k"] == "exit":
            os._exit(77)
        if r["k"] != "ret":
            raise {"stop": _Stop, "fail": _Fail}[r["k"]]("the sampler is interrupted")
        return r["g"]
    decoding.sample_decode_count_correct = stub
    cd.sample_decode_count_correct = stub
    if m["k"] == "main":
        sys.argv = m["argv"]
        check_c18.paper_module().main()
    elif m["k"] == "example":
        import main_example
        os.chdir(m["dir"])
        main_example.main()
    else:
        probs, _ = collectruns.problems(4, lambda i, c: c, [(1, 0), (1, 0)] + FRAC[2:])
        f = cd.collect_simulated_experiment_data if m["k"] == "collect" else cd.collect_detection_fraction_data
        f([probs[x - 1] for x in m["ids"]], out_path=m["path"], discard_previous_data=m["m"] == "discard", **m["kw"])


class Study:
    def __init__(self, rng, names):
        self.rng, self.names = rng, names
        self.dir = tempfile.mkdtemp(prefix="verif-study-")
        self.table = table()
        self.tuples = [check_c14.tup(d) for d in self.table]
        self.ev, self.runs, self.at, self.idle = [], {}, {}, []

    def path(self, f):
        return os.path.join(self.dir, self.names[f - 1])

    def child(self):
        """A process to collect in: a new one, or one that has collected before."""
        if self.idle and self.rng.random() < 0.75:
            return self.idle.pop(self.rng.randrange(len(self.idle)))
        return Child()

    def quiet(self, f, shared=False):
        """Interrupts the collectors that the specification does not allow on file f any more (a real collector
        may be slower than the one in the generated history)."""
        for c in list(self.runs):
            if self.at[c][0] == f and not (shared and self.at[c][1] == "append"):
                self.stop(c)

    def start(self, c, f, m, td):
        if c in self.runs:
            self.stop(c)
        self.quiet(f, m == "append")
        self.at[c] = (f, m)
        rng, path = self.rng, self.path(f)
        kw = dict(min_shots=rng.choice([1, 2, 5, 100]), min_seen_logical_errors=rng.choice([1, 10, 1000]))
        kw["max_shots"] = rng.choice([kw["min_shots"], kw["min_shots"] * 3, kw["min_shots"] * 7 + 1, 10 ** 6])
        if rng.random() < 0.5:
            kw["max_batch"] = rng.choice([kw["min_shots"], kw["max_shots"], 3 * kw["min_shots"]])
        if m == "append" and CAT and rng.random() < 0.35:
            num, desc, circuit = rng.choice(CAT)
            x = 5 + [k for k, _, _ in CAT].index(num)
            argv = ["main", "--problem_id", str(num), "--out_file", path, "--max_shots", str(kw["max_shots"]), "--max_errors", str(kw["min_seen_logical_errors"])]
            argv += ["--max_batch_size", str(kw["max_batch"])] if "max_batch" in kw else []
            order = dict(k="main", known=[x], argv=argv)
        else:
            order = dict(k="collect", known=[1, 2], ids=list(dict.fromkeys(td)), path=path, m=m, kw=kw)
        self.ev.append(dict(k="start", c=c, f=f, m=m))
        self.begin(c, order)

    def begin(self, c, order):
        self.runs[c] = self.child()
        self.runs[c].order(order)
        self.settle(c)

    def settle(self, c):
        ch = self.runs[c]
        w = ch.waiting
        if w["k"] == "exc" and not w["planned"]:
            raise RuntimeError(w["x"])
        if w["k"] != "call":
            self.ev.append(dict(k="stop", c=c))
            del self.runs[c]
            if not ch.dead:
                self.idle.append(ch)

    def sample(self, c):
        if c not in self.runs:
            return
        w = self.runs[c].waiting
        g = w["n"] - self.rng.choice([0, 0, 1, w["n"] // 4, w["n"] // 2, w["n"]])
        g = max(0, g)
        self.ev.append(dict(k="sample", c=c, x=w["x"], n=w["n"], g=g))
        self.runs[c].say({"k": "ret", "g": g})
        self.settle(c)

    def stop(self, c):
        if c not in self.runs:
            return
        self.runs[c].say({"k": self.rng.choice(["exit", "stop", "fail"])})
        self.settle(c)

    def frac(self, f, m):
        self.quiet(f)
        shots, ids = self.rng.choice([1, 3, 256]), self.rng.choice([[3], [4], [3, 4]])

        ch = self.child()
        ch.order(dict(k="frac", known=[], ids=ids, path=self.path(f), m=m, kw=dict(shots=shots)))
        if ch.waiting["k"] != "end":
            raise RuntimeError(str(ch.waiting))
        self.idle.append(ch)
        self.ev.append(dict(k="frac", f=f, m=m, rs=[[x, FRAC[x - 1][0] * shots, (FRAC[x - 1][0] - FRAC[x - 1][1]) * shots] for x in ids]))

    def agg(self, fs, f):
        if not all(os.path.exists(self.path(i)) for i in fs):
            return
        self.quiet(f)
        text = check_c14.aggregate([self.path(i) for i in fs])
        with open(self.path(f), "w") as out:
            out.write(text)
        self.ev.append(dict(k="agg", fs=fs, f=f))

    def example(self, f):
        for c in list(self.runs):
            self.stop(c)
        self.ev.append(dict(k="start", c=1, f=f, m="discard"))
        self.begin(1, dict(k="example", known=[5 + len(CAT) + i for i in range(len(EXAMPLE))], dir=os.path.dirname(self.path(f))))
        for k in range(500):
            if 1 not in self.runs:
                return
            w = self.runs[1].waiting
            g = w["n"] - max(1, self.rng.choice([w["n"] // 50, w["n"] // 9]))
            self.ev.append(dict(k="sample", c=1, x=w["x"], n=w["n"], g=g))
            self.runs[1].say({"k": "ret", "g": g})
            self.settle(1)
        raise RuntimeError("main_example does not stop sampling")

    def read(self, fs=None):
        import collect_data
        have = [f for f in range(1, len(self.names) + 1) if os.path.exists(self.path(f))]
        if fs is None:
            fs = self.rng.sample(have, self.rng.randrange(len(have) + 1))
        data = collect_data.read_recorded_data(*[self.path(f) for f in fs])
        out = []
        for d, s in data.data.items():
            t = check_c14.tup(d)
            out.append([self.tuples.index(t) + 1 if t in self.tuples else 0, int(s.num_shots), int(s.num_correct)])
        self.ev.append(dict(k="read", fs=fs, out=out))

    def finish(self):
        have = [f for f in range(1, len(self.names) + 1) if os.path.exists(self.path(f))]
        for f in have:
            self.read([f])
        self.read(have)

    def close(self):
        for c in list(self.runs.values()) + self.idle:
            if not c.dead:
                os.kill(c.pid, 9)
                c.close()
        shutil.rmtree(self.dir, ignore_errors=True)


def play(arg):
    seed, hist = arg
    rng = random.Random(seed)
    st = Study(rng, ["test.csv", "b.csv", "c.csv"])
    try:
        for h in hist:
            o = h["op"]
            if o == "start":
                st.start(h["c"], h["f"], h["m"], h["td"])
            elif o == "sample":
                st.sample(h["c"])
            elif o == "stop":
                st.stop(h["c"])
            elif o == "frac":
                st.frac(h["f"], h["m"])
            elif o == "agg":
                st.agg(h["fs"], h["f"])
            elif o == "example":
                st.example(h["f"])
            st.read()
        st.finish()
        for c in list(st.runs):      # the study ends with its collectors interrupted or done
            for _ in range(rng.choice([0, 3])):
                st.sample(c)
            st.stop(c)
        st.finish()
        return {"files": 3, "ev": st.ev}
    finally:
        st.close()


def canonical(h):
    """Files are interchangeable: the first one used is file 1, the next new one file 2."""
    seen = []
    for o in h:
        for f in o["fs"] + [o["f"]]:
            if f and f not in seen:
                seen.append(f)
    return seen == sorted(seen) and seen[:1] in ([], [1])


def prepare(chk):
    global REAL
    import decoding
    REAL = decoding.sample_decode_count_correct
    m = check_c18.paper_module()
    with contextlib.redirect_stderr(io.StringIO()):
        hp = m.honeycomb_problems()
        sp = m.surface_code_problems(f"{vlib.REPO}/src/paper/surface_code_circuits")
    small = [i for i, p in enumerate(hp) if p.desc.data_width == 4 and "EM3" not in p.desc.circuit_style]
    pick = chk.rng.sample(small, 3) + [len(hp) + i for i in chk.rng.sample([i for i, p in enumerate(sp) if p.desc.data_width == 3], 2)]
    allp = hp + sp
    CAT[:] = [(i, allp[i].desc, allp[i].circuit_maker()) for i in pick]
    from honeycomb_layout import HoneycombLayout
    EXAMPLE[:] = []
    for d in (1, 2):
        for p in (0.001, 0.002, 0.003):
            pr = HoneycombLayout(noise=p, data_width=4 * d, data_height=6 * d, sub_rounds=30, style="EM3_v2", obs="H").as_decoder_problem("pymatching")
            EXAMPLE.append((pr.desc, pr.circuit_maker()))


def run(chk):
    prepare(chk)
    inv = dict(invariants=["Accounted", "NothingTwice"], properties=["Grows"])
    r = chk.tlc("Study", consts=dict(NFiles=2, NCollectors=2, MaxLen=3 if chk.quick else 4, Emit=1), **inv)
    short = [i["h"] for i in r.items if canonical(i["h"])]
    if not chk.quick:
        chk.tlc("Study", consts=dict(NFiles=3, NCollectors=2, MaxLen=5, Emit=0), **inv)
    n = 30 if chk.quick else 200
    sim = chk.tlc("Study", consts=dict(NFiles=3, NCollectors=2, MaxLen=14, Emit=1), expect_ok=False, workers=1, invariants=inv["invariants"],
                  extra_args=["-simulate", f"num={n}", "-depth", "15", "-seed", str(chk.seed)])
    if sim.violated or len(sim.items) < n:
        raise vlib.MachineryError("simulation of Study failed\n" + sim.tail())
    long = [i["h"] for i in chk.rng.sample(sim.items, min(len(sim.items), 500 if chk.quick else 6000))]
    ex = dict(op="example", f=1, fs=[], c=0, m="", td=[])
    hists = [[ex], [short[-1][0], ex]] + [h[:2] + [ex] + h[2:] for h in chk.rng.sample(short, 0 if chk.quick else 10) if not any(o["op"] == "start" for o in h[:2])]
    k = len(hists)
    hists += long + short
    args = [(chk.rng.randrange(10 ** 9), h) for h in hists]
    kept, rows = circuits.build_rows(chk, play, args, lambda a: f"study {[tuple(v for v in o.values() if v) for o in a[1]]} (seed {a[0]})")
    chk.validate_traces("StudyTrace", rows, describe=lambda i: f"study {[tuple(v for v in o.values() if v) for o in kept[i][1]]} (seed {kept[i][0]})")
    chk.count("short_histories_exhaustive", len(short))
    chk.count("long_histories", len(long))
    chk.count("runs_of_main_example", k)
    chk.count("sampler_calls", sum(e["k"] == "sample" for r in rows for e in r["ev"]))
    chk.count("reads", sum(e["k"] == "read" for r in rows for e in r["ev"]))
    chk.sample(rows[0]["ev"][-3:]), chk.sample(rows[k]["ev"][:8])
    chk.assumptions.append("two collectors share a file only when neither discards it; interruptions inside the sampler (C13 covers interruption anywhere)")
