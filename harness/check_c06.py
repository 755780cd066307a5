"""C06: noise models add exactly their channels (generated programs against NoiseTrace.tla)."""
import random
import stim
import circuits
import noisecirc

C1 = ["C_XYZ", "C_ZYX", "H", "H_YZ", "I"]
C2 = ["CX", "CY", "CZ", "XCX", "XCY", "XCZ", "YCX", "YCY", "YCZ"]
RM = ["R", "RX", "RY", "M", "MX", "MY"]
OTHER = ["S", "SQRT_X", "X", "Y", "Z", "SWAP", "ISWAP", "MR", "MRX", "MXX", "X_ERROR", "DEPOLARIZE1", "DEPOLARIZE2", "SQRT_XX", "H_XY"]
TWO = set(C2) | {"SWAP", "ISWAP", "MXX", "DEPOLARIZE2", "SQRT_XX"}


def unit(x):
    return int(round(x * 10 ** 8))


def make_model(rng, kind):
    """(NoiseModel, model row) for a named model at some strength or an arbitrary one."""
    from noise import NoiseModel
    if kind < 5:
        p = rng.choice([0.0, 0.001, 0.01, 0.03125, 0.125])
        m = [NoiseModel.SD6, NoiseModel.PC3, NoiseModel.EM3_v1, NoiseModel.EM3_v2, NoiseModel.SI1000][kind](p)
        if m.use_correlated_parity_measurement_errors:
            m = NoiseModel(**{**m.__dict__, "noisy_gates": {k: v for k, v in m.noisy_gates.items() if k != "MPP"}})
    else:
        def r(zero=0.2):
            return 0.0 if rng.random() < zero else rng.randrange(1, 70) / 100
        names = rng.sample(C1 + C2 + RM + ["MPP"], rng.randrange(2, 14))
        m = NoiseModel(idle=r(0.3), measure_reset_idle=r(0.3), noisy_gates={n: r(0.15) for n in names},
                       any_clifford_1=rng.choice([None, r(), r()]), any_clifford_2=rng.choice([None, r(), r()]))
    row = {"idle": unit(m.idle), "mri": unit(m.measure_reset_idle), "corr": False,
           "c1": -1 if m.any_clifford_1 is None else unit(m.any_clifford_1),
           "c2": -1 if m.any_clifford_2 is None else unit(m.any_clifford_2),
           "g": {"NONE": 0, **{k: unit(v) for k, v in m.noisy_gates.items()}}}
    return m, row


def covered_ops(row):
    out = [g for g in row["g"] if g != "NONE"]
    if row["c1"] >= 0:
        out += C1
    if row["c2"] >= 0:
        out += C2
    return sorted(set(out))


def program(rng, row, foreign_ops, depth=0, nq=None, state=None):
    """A random program in which no qubit is used twice in a moment."""
    nq = nq or rng.choice([1, 2, 3, 4, 6])
    state = state if state is not None else {"m": 0}
    ops = covered_ops(row) * 6
    if foreign_ops:
        ops += OTHER + C1 + C2 + RM + ["MPP"]
    c = stim.Circuit()
    free = list(range(nq))
    for _ in range(rng.randrange(1, 9)):
        x = rng.random()
        if x < 0.18:
            c.append("TICK", [])
            free = list(range(nq))
        elif x < 0.3:
            y = rng.randrange(4)
            if y == 0 and state["m"]:
                c.append("DETECTOR", [stim.target_rec(-rng.randrange(1, state["m"] + 1)) for _ in range(rng.randrange(0, 3))], [rng.randrange(4), 1.5])
            elif y == 1 and state["m"]:
                c.append("OBSERVABLE_INCLUDE", [stim.target_rec(-1)], rng.randrange(3))
            elif y == 2:
                c.append("SHIFT_COORDS", [], [0, 0, 1])
            else:
                c.append("QUBIT_COORDS", [rng.randrange(nq)], [rng.randrange(5), rng.randrange(5)])
        elif x < 0.42 and depth < 3:
            b = program(rng, row, False, depth + 1, nq, state)
            if len(b):
                c.append(stim.CircuitRepeatBlock(rng.randrange(1, 4), b))
                free = list(range(nq))
        elif ops:
            g = rng.choice(ops)
            rng.shuffle(free)
            n = rng.randrange(1, 4)
            if g in TWO or g == "MPP":
                pairs = [(free.pop(), free.pop()) for _ in range(min(n, len(free) // 2))]
                if not pairs:
                    continue
                if g == "MPP":
                    t = []
                    for a, b in pairs:
                        f = [rng.choice([stim.target_x, stim.target_y, stim.target_z])(q, invert=rng.random() < 0.3) for q in (a, b)]
                        t += [f[0], stim.target_combiner(), f[1]]
                    c.append("MPP", t)
                elif g.startswith("DEPOL"):
                    c.append(g, [q for ab in pairs for q in ab], 0.01)
                else:
                    c.append(g, [q for ab in pairs for q in ab])
                state["m"] += len(pairs) if g in ("MPP", "MXX") else 0
            else:
                qs = [free.pop() for _ in range(min(n, len(free)))]
                if not qs:
                    continue
                if g[0] == "M":
                    state["m"] += len(qs)
                    # (a measurement may already have a readout error of its own, which stays what it is)
                    own = [rng.choice([0.0, 0.0625, 0.25])] if g in RM and rng.random() < 0.15 else []
                    c.append(g, [stim.GateTarget(q) if rng.random() < 0.8 else stim.target_inv(q) for q in qs], own)
                elif g.endswith("ERROR") or g.startswith("DEPOL"):
                    c.append(g, qs, 0.01)
                else:
                    c.append(g, qs)
    return c


def systematic():
    """Every operation kind alone and next to every other one, with an idle qubit around."""
    from itertools import product
    ops = C1 + C2 + RM + ["MPP"]
    out = []
    for a, b, sep in product(ops, [None] + ops, [0, 1, 2]):
        if b is None and sep:
            continue
        txt = []
        for g, (p, q) in ((a, (0, 1)), (b, (2, 3) if sep == 0 else (1, 2))):
            if g is None:
                continue
            txt.append(f"{g} X{p}*Z{q}" if g == "MPP" else f"{g} {p} {q}" if g in TWO else f"{g} {p}")
            if sep == 1:
                txt.append("TICK")
            elif sep == 2:
                txt = ["REPEAT 2 {", *txt, "}"] if g == a else txt
        out.append(stim.Circuit("\n".join(txt + ["TICK", "QUBIT_COORDS(1, 2) 4"])))
    return out


def _row(job):
    seed, kind, circuit = job
    rng = random.Random(seed)
    m, mrow = make_model(rng, kind)
    if circuit is None:
        circuit = program(rng, mrow, rng.random() < 0.3)
        if circuit.num_measurements > 400 or circuit.num_qubits == 0:
            circuit = stim.Circuit("TICK\nTICK")
    else:
        circuit = stim.Circuit(circuit)
    qs = None
    if rng.random() < 0.3:
        qs = {q for q in range(circuit.num_qubits + 2) if rng.random() < 0.7}
    before = str(circuit)
    ops = {a["g"] for ch in noisecirc.chunks_of(circuit, unit) for mo in ch for a in mo}
    ok = ops <= set(covered_ops(mrow)) | noisecirc.ANN
    try:
        noisy = m.noisy_circuit(circuit) if qs is None else m.noisy_circuit(circuit, qs=qs)
    except Exception as ex:
        if ok:
            raise type(ex)(f"{ex} on {mrow} {before!r}")
        noisy = None
    row = noisecirc.noise_row(circuit, noisy, unit=unit, model=mrow, qs=qs)
    row["label"] = f"model {mrow} qs={qs} circuit {before!r}"
    return row


def run(chk):
    jobs = []
    for i, c in enumerate(systematic()):
        for kind in ((5, 6, i % 5) if not chk.quick else (5 + i % 2,) if i % 3 else (i // 3 % 5,)):
            jobs.append((chk.rng.randrange(10 ** 9), kind, str(c)))
    for i in range(2500 if chk.quick else 20000):
        jobs.append((chk.rng.randrange(10 ** 9), i % 10, None))
    kept, rows = circuits.build_rows(chk, _row, jobs, lambda j: f"noise job {j}")
    labels = [r.pop("label") for r in rows]
    chk.validate_traces("NoiseTrace", rows, describe=lambda i: labels[i])
    chk.count("refused_programs", sum(r["refused"] for r in rows))
    chk.count("chunks", sum(len(r["ch"]) for r in rows))
    chk.sample(labels[0]), chk.sample(labels[-1])
