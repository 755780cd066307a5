"""C21: circuit diagrams (Diagram.tla)."""
import random
import stim
import circuits

SUPPORTED1 = ["M", "R", "H", "H_YZ", "C_XYZ", "C_ZYX", "MX", "MY", "MR"]
SUPPORTED2 = ["CX", "CY", "CZ", "XCX", "XCY", "XCZ", "YCX", "YCY", "YCZ"]
SILENT = {"DETECTOR", "OBSERVABLE_INCLUDE", "SHIFT_COORDS", "X_ERROR", "DEPOLARIZE1", "DEPOLARIZE2", "QUBIT_COORDS"}


def project(c, qs):
    """Syntactic translation; qubit coordinates are collected on the way (y in half units)."""
    out = []
    for op in c:
        if isinstance(op, stim.CircuitRepeatBlock):
            out.append(dict(n="REPEAT", k=op.repeat_count, b=project(op.body_copy(), qs)))
        elif op.name == "QUBIT_COORDS":
            x, y = op.gate_args_copy()
            assert x == int(x) and 2 * y == int(2 * y)
            qs += [[t.value, int(x), int(2 * y)] for t in op.targets_copy()]
        elif op.name in SILENT:
            pass
        elif op.name == "MPP":
            out.append(dict(n="MPP", g=[[["X" if t.is_x_target else "Y" if t.is_y_target else "Z", t.value] for t in g if not t.is_combiner] for g in op.target_groups()]))
        else:
            out.append(dict(n=op.name, t=[t.value for t in op.targets_copy()]))
    return out


def drawn(job):
    from circuit_diagrams import plot_circuit
    if "circuit" in job:
        c = stim.Circuit(job["circuit"])
    else:
        from honeycomb_circuit import generate_honeycomb_circuit
        from honeycomb_layout import HoneycombLayout
        k = job["cfg"]
        c = generate_honeycomb_circuit(HoneycombLayout(noise=k["p"], data_width=k["w"], data_height=k["h"], sub_rounds=k["n"], style=k["style"], obs=k["obs"]))
    text = plot_circuit(c, job["body"])
    qs = []
    ops = project(c, qs)
    cells = [[i, j, ch] for i, line in enumerate(str(text).split("\n")) for j, ch in enumerate(line) if ch != " "]
    return dict(qs=qs, ops=ops, body=bool(job["body"]), cells=cells, text=str(text) if len(text) < 3000 else "(large diagram)")


def compose(rng, shapes, ox, oy):
    """A circuit of enumerated moments, with loops, noise and annotations that must not show."""
    moments = rng.choice(shapes)
    points = sorted({tuple(p) for m in moments for o in m["ops"] for p in o["q"]} | set(moments[0]["grid"]))
    rng.shuffle(points)
    ids = {p: i * rng.choice([1, 1, 2]) for i, p in enumerate(points)}
    if len(set(ids.values())) < len(ids):
        ids = {p: i for i, p in enumerate(points)}
    head = "".join(f"QUBIT_COORDS({p[0] + ox}, {(p[1] + oy) / 2}) {q}\n" for p, q in ids.items())

    def moment(m):
        s, ops = "", list(m["ops"])
        rng.shuffle(ops)
        for o in ops:
            t = [ids[tuple(p)] for p in o["q"]]
            if len(t) == 1:
                n = rng.choice(SUPPORTED1) if o["n"] == "H" else o["n"]
                inv = "!" if n in ("M", "MX", "MY") and rng.random() < 0.2 else ""
                s += f"MPP {rng.choice('XYZ')}{t[0]}\n" if rng.random() < 0.1 else f"{n} {inv}{t[0]}\n"
            elif rng.random() < 0.3:
                s += f"MPP {rng.choice(['', '!'])}{rng.choice('XYZ')}{t[0]}*{rng.choice('XYZ')}{t[1]}\n"
            else:
                n = rng.choice(SUPPORTED2)
                s += f"{n} {t[0]} {t[1]}\n"
        if rng.random() < 0.3:
            s += f"DEPOLARIZE1(0.01) {rng.choice(list(ids.values()))}\n"
        if rng.random() < 0.2:
            s += f"X_ERROR(0.01) {rng.choice(list(ids.values()))}\nSHIFT_COORDS(0, 0, 1)\n"
        return s

    def block(depth, top):
        s = ""
        for _ in range(rng.randrange(1, 4)):
            if depth and rng.random() < 0.35:
                s += f"REPEAT {rng.choice([1, 2, 2, 3, 5] if depth < 2 or rng.random() < 0.9 else [13, 34])} {{\n{block(depth - 1, False)}TICK\n}}\n"
            else:
                s += moment(rng.choice(moments)) + ("TICK\n" if rng.random() < 0.95 or not top else "TICK\nTICK\n")
        return s
    body = block(2, True)
    if rng.random() < 0.5 and body.endswith("TICK\n"):
        body = body[:-5]
    merged = str(stim.Circuit(head + body))        # merges neighbouring operations of a kind: several targets in one instruction
    return merged


def shows(c, body):
    """Is there anything to draw?"""
    c = stim.Circuit(c)
    return any(isinstance(op, stim.CircuitRepeatBlock) for op in c) if body else "TICK" in str(c) or any(op.name in SUPPORTED1 + SUPPORTED2 + ["MPP"] for op in c)


def run(chk):
    rng = chk.rng
    shapes = []
    for (w, h), ones in (((2, 2), '{"H", "M"}'), ((3, 1), '{"H", "M"}'), ((1, 3), '{"H", "M"}'), ((3, 2), '{"H"}'), ((2, 3), '{"H"}'), ((4, 1), '{"H"}')):
        r = chk.tlc("Diagram", consts=dict(Width=w, Height=h, Ones=ones, Twos='{"CX"}'), env={"TRACES": "/dev/null"},
                    spec=("MInit", "MNext"), invariants=["Once", "Injective", "Report"])
        shapes.append([dict(ops=i["ops"], grid=[(x, y) for x in range(w) for y in range(h)]) for i in r.items])
        chk.count("moments_enumerated", len(r.items))
    if not chk.quick:
        r = chk.tlc("Diagram", consts=dict(Width=3, Height=3, Ones='{"H"}', Twos='{"CX"}'), env={"TRACES": "/dev/null"}, spec=("MInit", "MNext"), invariants=["Once", "Report"])
        shapes.append([dict(ops=i["ops"], grid=[(x, y) for x in range(3) for y in range(3)]) for i in rng.sample(r.items, 20000)])
    jobs = []
    for sh in shapes:                 # every enumerated moment once (or a sample)
        for m in (sh if len(sh) < 400 else rng.sample(sh, 400)):
            jobs.append(dict(circuit=compose(rng, [[m]], 0, 0), body=False))
    for _ in range(800 if chk.quick else 12000):
        jobs.append(dict(circuit=compose(rng, shapes, rng.choice([0, 0, 1, 2]), rng.choice([0, 0, 1, 3])), body=rng.random() < 0.4))
    jobs = [j for j in jobs if shows(j["circuit"], j["body"])]
    for s in circuits.STYLES:
        for o in "HV":
            for w, h, n in ((2, 6, 3), (2, 6, 15), (4, 6, 15)) + (() if chk.quick else ((4, 12, 18), (6, 6, 24))):
                for body in (False, True):
                    p = 0.001 if s != "EM3_v2" and n == 15 else 0
                    if body and n < 15 or (not body and w > 2 and chk.quick and s in ("SD6", "SI1000")):
                        continue
                    jobs.append(dict(cfg=dict(w=w, h=h, n=n, style=s, obs=o, p=p), body=body))
    rng.shuffle(jobs)
    kept, rows = circuits.build_rows(chk, drawn, jobs, lambda j: f"diagram (loop body only: {j['body']}) of\n{j.get('circuit', j.get('cfg'))}")
    cap = 12000 if chk.quick else 26000
    chk.count("diagrams_too_large_for_the_model", sum(len(r["cells"]) > cap for r in rows))
    kept, rows = [k for k, r in zip(kept, rows) if len(r["cells"]) <= cap], [r for r in rows if len(r["cells"]) <= cap]
    chk.validate_traces("Diagram", rows, consts=dict(Width=1, Height=1, Ones="{}", Twos="{}"), spec=("TInit", "TNext"),
                        describe=lambda i: f"diagram (loop body only: {kept[i]['body']}) of\n{kept[i].get('circuit', kept[i].get('cfg'))}\n")
    chk.count("diagrams", len(rows))
    chk.count("symbols_and_connector_cells", sum(len(r["cells"]) for r in rows))
    chk.sample(rows[3])
    chk.assumptions.append("Two-qubit operations act along a row or column; each qubit is used once per moment; grid coordinates (integer, half-integer).")
