"""C14: reading, merging, grouping and aggregating recorded data conserves every shot (CsvData.tla)."""
import contextlib
import importlib.util
import io
import itertools
import json
import os
import pathlib
import random
import shutil
import subprocess
import sys
import tempfile
import circuits
import vlib

FIELDS = ["data_width", "data_height", "code_distance", "num_qubits", "rounds", "noise", "circuit_style", "preserved_observable", "decoder"]
TICK = 1024          # processing times are multiples of 1/1024 s: sums are exact


def base_desc(rng):
    return [rng.choice([2, 4, 8, 12]), rng.choice([6, 12, 18]), rng.choice([1, 2, 4, 11]), rng.choice([12, 30, 221]), rng.choice([1, 10, 36]),
            rng.choice([0.001, 0.002, 0.0001, 0.03, 1e-05]), rng.choice(["SD6", "EM3", "EM3_v2", "surface_SD6", "PC3"]), rng.choice("HVXZ-"), rng.choice(["internal", "internal_correlated", "pymatching"])]


def vary(rng, d):
    d = list(d)
    k = rng.randrange(9)
    if k < 5:
        d[k] += rng.choice([1, 10, 111])
    elif k == 5:
        d[5] = rng.choice([d[5] * 10, d[5] * (1 + 2 ** -52), d[5] / 2])
    elif k == 6:
        d[6] = rng.choice(["surface_" + d[6], d[6] + "_v2", d[6].lower()])
    elif k == 7:
        d[7] = {"H": "V", "V": "H", "X": "Z", "Z": "X", "-": "H"}[d[7]]
    else:
        d[8] += "_correlated"
    if rng.random() < 0.2:      # move between two fields: same values in other places
        a, b = rng.sample(range(5), 2)
        d[a], d[b] = d[b], d[a]
    return d


def tup(d):
    return tuple(getattr(d, f) for f in FIELDS)


class World:
    def __init__(self, rng):
        self.rng = rng
        self.dir = pathlib.Path(tempfile.mkdtemp(prefix="verif-csv-"))
        self.table = [tuple(base_desc(rng))]
        while len(self.table) < rng.choice([1, 2, 3, 5, 8]):
            t = tuple(vary(rng, rng.choice(self.table)))
            if t not in self.table:
                self.table.append(t)
        self.paths, self.files = [], []

    def ident(self, desc):
        t = tup(desc)
        ok = all(type(a) is type(b) for a, b in zip(t, self.table[0]))
        return self.table.index(t) + 1 if ok and t in self.table else 0

    def write(self, rel, recs, header):
        p = self.dir / rel
        p.parent.mkdir(parents=True, exist_ok=True)
        with open(p, "w") as f:
            if header is not None:
                print(header, file=f)
            for d, n, c, t in recs:
                v = dict(zip(FIELDS, self.table[d - 1]), num_shots=n, num_correct=c, total_processing_seconds=t / TICK, version=2)
                print(",".join(str(v[k]) for k in header.split(",")), file=f)
        self.paths.append(p)
        self.files.append(recs)

    def stat(self, s):
        t = s.total_processing_seconds * TICK
        return [int(s.num_shots), int(s.num_correct), int(t) if t == int(t) else -1]

    def project(self, data):
        return [[self.ident(k)] + self.stat(v) for k, v in data.data.items()]


def world(arg):
    import collect_data
    seed, plan = arg
    rng = random.Random(seed)
    w = World(rng)
    try:
        header = collect_data.CSV_HEADER

        def rec():
            n = rng.choice([0, 1, 2, 25, 1000, 32768, 10 ** 6])
            return [rng.randrange(1, len(w.table) + 1), n, rng.choice([0, n, n // 2, rng.randrange(n + 1)]), rng.randrange(4 * TICK)]
        if plan is None:
            recs = [rec() for _ in range(rng.choice([0, 1, 2, 5, 12]))]
            recs += rng.choices(recs, k=rng.choice([0, 0, 2])) if recs else []
            nf = rng.choice([1, 1, 2, 3, 5])
            where = ["", "a/", "a/b/", "a/b/c/", "z/", ".h/", "a/x y.d/"]
            if rng.random() < 0.3:      # files of the same name in different directories
                names = [x + "0.csv" for x in rng.sample(where, nf)]
            else:
                names = [rng.choice(where) + f"{i}.csv" for i in range(nf)]
            split = [[] for _ in range(nf)]
            for r in recs:
                split[rng.randrange(nf)].append(r)
        else:
            split, names = plan, [f"{'a/' * i}{i}.csv" for i in range(len(plan))]
            n = max([r[0] for f in plan for r in f], default=1)
            while len(w.table) < n:
                t = tuple(vary(rng, rng.choice(w.table)))
                if t not in w.table:
                    w.table.append(t)
        for name, rs in zip(names, split):
            w.write("d/" + name, rs, header if rs or rng.random() < 0.7 else None)
        (w.dir / "d" / "notes.txt").write_text("not,data\n1,2\n")
        (w.dir / "d" / "x.csv.bak").write_text(header + "\n")
        row = {"files": w.files, "ops": []}
        blank = dict(op="", fs=[], src=0, keep=[], key=[], out=[])
        n = len(w.paths)
        sets = []

        def read(fs):
            d = collect_data.read_recorded_data(*[rng.choice([str, pathlib.Path])(w.paths[i]) for i in fs])
            sets.append(d)
            row["ops"].append(dict(blank, op="read", fs=[i + 1 for i in fs], out=w.project(d)))

        def look(i):
            row["ops"].append(dict(blank, op="look", src=i + 1, out=w.project(sets[i])))

        orders = [list(range(n)), rng.sample(range(n), n), rng.sample(range(n), rng.randrange(n + 1))]
        for fs in orders:
            read(fs)
        for _ in range(rng.choice([2, 4, 7])):
            i = rng.randrange(len(sets))
            keyvals = {t: rng.choice([rng.randrange(3), rng.randrange(3), 7]) for t in w.table}
            keys = [[k + 1, keyvals[t]] for k, t in enumerate(w.table)]
            what = rng.choice(["filter", "group", "merge", "merge"])
            if what == "filter":
                keep = [k + 1 for k, t in enumerate(w.table) if keyvals[t] == 1]
                d = sets[i].filter(lambda d: keyvals[tup(d)] == 1)
                sets.append(d)
                row["ops"].append(dict(blank, op="filter", src=i + 1, keep=keep, out=w.project(d)))
            elif what == "group":
                g = sets[i].grouped_by(lambda d: keyvals[tup(d)])
                row["ops"].append(dict(blank, op="group", src=i + 1, key=keys, out=[[k, w.project(v)] for k, v in g.items()]))
            else:
                g = sets[i].merged_by(lambda d: keyvals[tup(d)])
                row["ops"].append(dict(blank, op="merge", src=i + 1, key=keys, out=[[k] + w.stat(v) for k, v in g.items()]))
            look(i)
        for i in range(len(sets)):
            look(i)
        # Aggregation: explicit files, or directories holding them, or a mixture; nothing named twice.
        dirs = rng.random()
        if dirs < 0.4:
            args, fs = [str(w.dir / "d")], list(range(n))
        elif dirs < 0.7:
            fs = rng.sample(range(n), n)
            args = [str(w.paths[i]) for i in fs]
            (w.dir / "e.d").mkdir()
            for k, i in enumerate(fs):      # files are named by the user, whatever they are called
                if rng.random() < 0.4:
                    args[k] = str(w.dir / "e.d" / (f"{i}" + rng.choice(["", ".txt", ".CSV", ".csv.part", ".dat", " copy.csv", ".csv.1"])))
                    shutil.copy(w.paths[i], args[k])
        else:
            inner = [i for i in range(n) if "/d/a/" in str(w.paths[i])]
            fs = list(range(n))
            args = ([str(w.dir / "d/a")] if inner else []) + [str(w.paths[i]) for i in range(n) if i not in inner]
            rng.shuffle(args)
        if args:
            text = aggregate(args, subprocess_too=rng.random() < 0.02)
            lines = text.split("\n")
            assert lines[0] == header and lines[-1] == "" and lines.count(header) == 1, "the aggregated table has no single header"
            out = w.dir / "merged.csv"
            out.write_text(text)
            d = collect_data.read_recorded_data(str(out))
            sets.append(d)
            row["ops"].append(dict(blank, op="agg", fs=[i + 1 for i in fs], out=w.project(d)))
        return row
    finally:
        shutil.rmtree(w.dir, ignore_errors=True)


def aggregate(args, subprocess_too=False):
    path = vlib.REPO / "src/paper/aggregate_csv_data.py"
    spec = importlib.util.spec_from_file_location("verif_aggregate", path)
    m = importlib.util.module_from_spec(spec)
    old, oldpath = sys.argv, list(sys.path)
    buf = io.StringIO()
    try:
        spec.loader.exec_module(m)
        sys.argv = [str(path)] + args
        with contextlib.redirect_stdout(buf):
            m.main()
    finally:
        sys.argv, sys.path[:] = old, oldpath
    if subprocess_too:
        r = subprocess.run([sys.executable, "-B", str(path)] + args, capture_output=True, text=True, timeout=120)
        if r.returncode or r.stdout != buf.getvalue():
            raise RuntimeError(f"aggregate_csv_data.py as a program: rc={r.returncode} {r.stderr[-300:]}")
    return buf.getvalue()


def plans(chk):
    """Every way of splitting and ordering up to three (four) records of up to three experiments over two files."""
    recs = [[1, 4, 3, 7], [2, 5, 5, 1], [1, 2, 0, 0], [3, 6, 1, 9]]
    out = []
    for k in range(0, 4 if chk.quick else 5):
        for perm in itertools.permutations(recs, k):
            for cut in range(k + 1):
                out.append([list(perm[:cut]), list(perm[cut:])])
    return out


def run(chk):
    args = [(chk.rng.randrange(10 ** 9), p) for p in plans(chk)]
    args += [(chk.rng.randrange(10 ** 9), None) for _ in range(1500 if chk.quick else 20000)]
    kept, rows = circuits.build_rows(chk, world, args, lambda a: f"recorded data, seed {a[0]} plan {a[1]}")
    chk.validate_traces("CsvData", rows, describe=lambda i: f"recorded data, seed {kept[i][0]} plan {kept[i][1]}")
    chk.count("operations", sum(len(r["ops"]) for r in rows))
    chk.sample(rows[3]), chk.sample(rows[-1])
    chk.assumptions.append("processing times are multiples of 1/1024 s, so that their sums are exact; no file is named twice")
