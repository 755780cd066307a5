"""Runs the real collection code under a recording stub sampler, with crashes, and projects the history
to CollectTrace.tla rows."""
import inspect
import os
import pathlib
import shutil
import sys
import tempfile

import stim
import vlib

COLS = ["data_width", "data_height", "rounds", "noise", "circuit_style", "preserved_observable", "code_distance",
        "num_qubits", "num_shots", "num_correct", "total_processing_seconds", "decoder", "version"]


OLD = ""        # what the file held before the study, when that is nobody's business ([-7] in rows)
_REC = "2,6,6,0.25,x,H,2,30,1000,900,1.5,pymatching,2"
FOREIGN = [",".join(COLS) + ",note\n" + _REC + ",hi\n", ",".join(COLS) + "\r\n" + _REC + "\r\n", ", ".join(COLS) + "\n" + _REC + "\n",
           ",".join(COLS[::-1]) + "\n" + ",".join(_REC.split(",")[::-1]) + "\n", ",".join(f'"{c}"' for c in COLS) + "\n", ",".join(COLS) + "\n\n" + _REC + "\n",
           "\ufeff" + ",".join(COLS) + "\n" + _REC + "\n", ",".join(COLS[:-1]) + "\n", "# started by hand\n", "\n"]


def problems(n, rec, frac=None):
    """n problems with distinguishable circuits; rec(i) is called when circuit i is made."""
    import collect_data as cd
    out, descs = [], []
    styles = ["honeycomb_SD6", "surface_SI1000", "honeycomb_EM3", "s"]
    for i in range(n):
        desc = cd.DecodingProblemDesc(data_width=4 + 2 * i, data_height=6 * (i + 1), code_distance=2 + i, num_qubits=60 + i, rounds=9 * (i + 1),
                                      noise=[0.001, 1e-05, 0.0123456789, 0.3][i % 4], circuit_style=styles[i % 4],
                                      preserved_observable="HV"[i % 2], decoder=["internal", "pymatching", "internal_correlated"][i % 3])
        text = f"QUBIT_COORDS({i}) 0\nM 0"
        if frac:
            nd, nf = frac[i]
            text = f"R {' '.join(map(str, range(nd)))}\n" + (f"X_ERROR(1) {' '.join(map(str, range(nf)))}\n" if nf else "")
            text += f"M {' '.join(map(str, range(nd)))}\n" + "".join(f"DETECTOR rec[-{k + 1}]\n" for k in range(nd))
        circuit = stim.Circuit(text)
        out.append(cd.DecodingProblem(desc=desc, circuit_maker=lambda i=i, c=circuit: rec(i, c)))
        descs.append((desc, circuit))
    return out, descs


def snapshot(path, descs, kind):
    if path is None or not os.path.exists(path):
        return {"e": 0, "r": []}
    text = pathlib.Path(path).read_bytes().decode()
    rows = []
    if OLD and text.startswith(OLD):
        rows.append([-7])
        text = text[len(OLD):]
    lines = text.split("\n")
    torn = lines.pop()
    for line in lines:
        if line == ",".join(COLS):
            rows.append([0])
            continue
        f = dict(zip(COLS, line.split(",")))
        got = []
        try:
            if len(line.split(",")) == len(COLS) and f["version"] == "2" and float(f["total_processing_seconds"]) >= 0:
                for i, (d, _) in enumerate(descs):
                    same = (int(f["data_width"]) == d.data_width and int(f["data_height"]) == d.data_height and int(f["rounds"]) == d.rounds
                            and float(f["noise"]) == d.noise and f["circuit_style"] == d.circuit_style and int(f["code_distance"]) == d.code_distance
                            and int(f["num_qubits"]) == d.num_qubits
                            and f["preserved_observable"] == ("-" if kind == "frac" else d.preserved_observable)
                            and f["decoder"] == ("detection_fraction" if kind == "frac" else d.decoder))
                    if same:
                        got = [i + 1, int(f["num_shots"]), int(f["num_correct"])]
        except (ValueError, KeyError):
            pass
        rows.append(got)
    if torn:
        rows.append([])
    return {"e": 1, "r": rows}


class _Boom(KeyboardInterrupt):
    pass


def one_run(run, kind, par, policy, path, frac, shots, np_, emit, watch=None):
    """Executes one collection run in this process. emit(event)."""
    import collect_data as cd
    import decoding
    lines = [0]
    prefix = str(vlib.REPO / "src") + os.sep

    def die():
        if run["how"] == "exit":
            os._exit(77)
        raise _Boom()

    def local(frame, event, arg):
        if event == "line":
            lines[0] += 1
            if lines[0] == run["at"]:
                die()
        return local

    def tracer(frame, event, arg):
        return local if frame.f_code.co_filename.startswith(prefix) else None
    calls = [0]

    def made(i, c):
        if kind == "frac":
            emit({"k": "call", "p": i + 1, "b": shots, "file": snapshot(watch, descs, kind)})
            emit({"k": "ret", "c": 0})
        return c
    probs, descs = problems(np_, made, frac)
    sig = inspect.signature(decoding.sample_decode_count_correct)

    def stub(*a, **kw):
        b = sig.bind(*a, **kw)
        b.apply_defaults()
        n, circuit, dec = b.arguments["num_shots"], b.arguments["circuit"], b.arguments["decoder"]
        which = [i for i, (d, c) in enumerate(descs) if c == circuit and d.decoder == dec]
        emit({"k": "call", "p": which[0] + 1 if which else 0, "b": int(n), "file": snapshot(watch, descs, kind)})
        if run["at"] == -1 - calls[0]:
            die()
        correct = n - policy(calls[0], int(n))
        calls[0] += 1
        emit({"k": "ret", "c": int(correct)})
        return correct
    decoding.sample_decode_count_correct = stub
    cd.sample_decode_count_correct = stub
    if kind == "frac":
        f, kw = cd.collect_detection_fraction_data, dict(shots=shots)
    else:
        f, kw = cd.collect_simulated_experiment_data, dict(min_shots=par["min"], max_shots=par["max"], min_seen_logical_errors=par["err"])
        if par["batch"] != par["max"] or not run.get("default_batch"):
            kw["max_batch"] = par["batch"]
        if not (par["sdn"] == 1 and par["sdd"] == 1):
            kw["max_sample_std_dev"] = par["sdn"] / par["sdd"]
    if run["at"]:
        sys.settrace(tracer)
    try:
        f(probs, out_path=path, discard_previous_data=run["mode"] == "discard", **kw)
    except _Boom:
        sys.settrace(None)
        return "crash"
    finally:
        sys.settrace(None)
    return "end"


def scenario(sc):
    """sc: kind, np, par, shots, frac, policy (list of fractions of errors), runs [{mode, out, at, how}], init."""
    import json
    scratch = tempfile.mkdtemp(prefix="verif-collect-")
    ev = []
    try:
        os.chdir(scratch)
        path = os.path.join(scratch, "data.csv") if not sc.get("relative") else "data.csv"
        init = {"e": 0, "r": []}
        if sc.get("init") == "empty":
            open(path, "w").close()
            init = {"e": 1, "r": []}
        global OLD
        OLD = ""
        if isinstance(sc.get("init"), int):
            OLD = FOREIGN[sc["init"]]
            pathlib.Path(path).write_bytes(OLD.encode())
            init = {"e": 1, "r": [[-7]]}
        n_calls = [0]

        def policy(i, b):
            f = sc["policy"][i % len(sc["policy"])]
            return min(b, max(0, f if isinstance(f, int) else int(round(f * b))))
        for run in sc["runs"]:
            ev.append({"k": "run", "mode": run["mode"], "out": run["out"]})
            p = path if run["out"] else None
            logp = os.path.join(tempfile.gettempdir(), f"verif-log-{os.getpid()}")
            pid = os.fork()
            if pid == 0:
                code = 3
                try:
                    fd = os.open(logp, os.O_WRONLY | os.O_CREAT | os.O_TRUNC)
                    null = os.open(os.devnull, os.O_WRONLY)
                    os.dup2(null, 1)
                    sys.stdout = open(1, "w", closefd=False)
                    budget = [3000]

                    def emit(e):
                        os.write(fd, (json.dumps(e) + "\n").encode())
                        budget[0] -= 1
                        if budget[0] < 0:      # runaway loop: the trace so far decides
                            os._exit(78)
                    try:
                        r = one_run(run, sc["kind"], sc["par"], policy, p, sc.get("frac"), sc.get("shots", 0), sc["np"], emit, watch=path)
                        code = 0 if r == "end" else 77
                    except BaseException as ex:
                        emit({"k": "exc", "x": f"{type(ex).__name__}: {ex}"})
                        code = 79
                finally:
                    os._exit(code)
            _, st = os.waitpid(pid, 0)
            code = os.waitstatus_to_exitcode(st)
            with open(logp) as f:
                evs = [json.loads(x) for x in f]
            os.unlink(logp)
            if evs and evs[-1]["k"] == "exc":
                raise RuntimeError(evs[-1]["x"])
            ev += evs
            _, descs = problems(sc["np"], lambda i, c: c, sc.get("frac"))
            snap = snapshot(path, descs, sc["kind"])
            stray = len([x for x in os.listdir(scratch) if x != "data.csv"])
            ev.append({"k": "end" if code == 0 else "crash", "file": snap, "stray": stray})
            if code == 78:
                break
            if code not in (0, 77):
                raise vlib.MachineryError(f"collection child exited with {code}")
        return {"kind": sc["kind"], "np": sc["np"], "par": sc["par"], "shots": sc.get("shots", 0), "frac": sc.get("frac") or [], "init": init, "ev": ev}
    finally:
        os.chdir("/")
        shutil.rmtree(scratch, ignore_errors=True)


def count_lines(sc):
    """Number of executed source lines of a run (crash points)."""
    scratch = tempfile.mkdtemp(prefix="verif-collect-")
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.chdir(scratch)
            null = os.open(os.devnull, os.O_WRONLY)
            os.dup2(null, 1)
            sys.stdout = open(1, "w", closefd=False)
            n = [0]
            prefix = str(vlib.REPO / "src") + os.sep

            def local(frame, event, arg):
                if event == "line":
                    n[0] += 1
                return local

            def policy(i, b):
                f = sc["policy"][i % len(sc["policy"])]
                return min(b, max(0, f if isinstance(f, int) else int(round(f * b))))
            run = dict(sc["runs"][0], at=0)
            import threading
            orig = sys.settrace
            orig(lambda fr, e, a: local if fr.f_code.co_filename.startswith(prefix) else None)
            sys.settrace = lambda f: None
            try:
                one_run(run, sc["kind"], sc["par"], policy, os.path.join(scratch, "d.csv"), sc.get("frac"), sc.get("shots", 0), sc["np"], lambda e: None)
            finally:
                orig(None)
            os.write(w, str(n[0]).encode())
        finally:
            os._exit(0)
    os.close(w)
    data = os.read(r, 100)
    os.close(r)
    os.waitpid(pid, 0)
    shutil.rmtree(scratch, ignore_errors=True)
    return int(data or b"60")
