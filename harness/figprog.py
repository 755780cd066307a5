"""Runs a figure program of the paper (its main) on recorded files in a scratch directory and returns its figures."""
import contextlib
import io
import os
import shutil
import sys
import tempfile

FIELDS = ["data_width", "data_height", "rounds", "noise", "circuit_style", "preserved_observable", "code_distance", "num_qubits"]


def batches(data, rng):
    for d, s in data.data.items():
        n, c, parts = int(s.num_shots), int(s.num_correct), []
        while rng.random() < 0.3 and n > 1:
            a = n // rng.choice([2, 3])
            b = min(a, c)
            parts.append((a, b))
            n, c = n - a, c - b
        for a, b in parts + [(n, c)]:
            yield [str(getattr(d, f)) for f in FIELDS] + [str(a), str(b), "0.25", d.decoder, "2"]


def figures(mod, data, rng):
    """{file name: figure} of everything the program saved."""
    import collect_data
    import matplotlib.figure
    import matplotlib.pyplot as plt
    rows = list(batches(data, rng))
    rng.shuffle(rows)
    scratch = tempfile.mkdtemp(prefix="verif-figures-")
    cwd, argv, path = os.getcwd(), sys.argv, list(sys.path)
    saved, show = {}, plt.show
    real = matplotlib.figure.Figure.savefig

    def savefig(fig, fname, *a, **kw):
        assert os.path.isdir(os.path.dirname(os.path.abspath(fname))), f"saves to a directory that does not exist: {fname}"
        saved[os.path.basename(str(fname))] = fig
    try:
        os.chdir(scratch)
        os.makedirs("gen"), os.makedirs("in/one"), os.makedirs("in/two")
        names = ["in/one/a.csv", "in/one/b.csv", "in/two/c.csv", "d.csv", "in/e.csv"]
        names = rng.sample(names, rng.choice([1, 2, 5]))
        for i, name in enumerate(names):
            with open(name, "w") as f:
                print(collect_data.CSV_HEADER, file=f)
                for r in rows[i::len(names)]:
                    print(",".join(r), file=f)
        for d in ("in/one", "in/two"):
            with open(d + "/readme.txt", "w") as f:
                print("not data", file=f)
        args = [n for n in names if "/" not in n or n == "in/e.csv"]
        for d in ("in/one", "in/two"):
            here = [n for n in names if n.startswith(d + "/")]
            args += [d] if here and rng.random() < 0.7 else here
        rng.shuffle(args)
        matplotlib.figure.Figure.savefig = savefig
        plt.show = lambda *a, **kw: None
        sys.argv = ["figure"] + args
        with contextlib.redirect_stdout(io.StringIO()):
            mod.main()
        return saved
    finally:
        matplotlib.figure.Figure.savefig = real
        plt.show, sys.argv, sys.path[:] = show, argv, path
        os.chdir(cwd)
        shutil.rmtree(scratch, ignore_errors=True)


def pick(mod, data, rng, name, also=("pdf", "png")):
    """The figure saved as name.pdf and name.png; the others are closed."""
    import matplotlib.pyplot as plt
    saved = figures(mod, data, rng)
    got = {id(saved.get(f"{name}.{e}")) for e in also}
    assert len(got) == 1 and f"{name}.{also[0]}" in saved, f"{name} was saved as {sorted(saved)}"
    fig = saved[f"{name}.{also[0]}"]
    for f in set(saved.values()) - {fig}:
        plt.close(f)
    return fig
