"""C07: correlated parity-measurement noise (gadgets judged by NoiseTrace.tla)."""
import random
import stim
import check_c06
import circuits
import noisecirc

unit = check_c06.unit


def _model(rng):
    from noise import NoiseModel
    p = rng.choice([0.001, 0.01, 0.1, 0.25, 0.5, 1.0, 1e-5, rng.random(), rng.random() / 50])
    if rng.random() < 0.5:
        m = NoiseModel.EM3_v2(p)
    else:
        m = NoiseModel(idle=rng.choice([0, 0.02]), measure_reset_idle=rng.choice([0, 0.03]), any_clifford_1=rng.choice([0, 0.01]),
                       any_clifford_2=rng.choice([0, 0.04]), use_correlated_parity_measurement_errors=True,
                       noisy_gates={"R": 0.05, "M": 0.06, "MX": 0.07, "RX": 0.0, "MPP": p})
    row = {"idle": unit(m.idle), "mri": unit(m.measure_reset_idle), "corr": True, "c1": unit(m.any_clifford_1), "c2": unit(m.any_clifford_2),
           "g": {k: unit(v) for k, v in m.noisy_gates.items()}}
    row["g"]["MPP"] = max(1, row["g"]["MPP"])
    return m, row, m.noisy_gates["MPP"]


def systematic():
    """Every basis pair and inversion, in every position: alone, doubled, in a loop away from the top qubit,
    in nested loops, before and after other operations."""
    out = []
    for b1 in "XYZ":
        for b2 in "XYZ":
            for inv in range(4):
                a, b = ("!" if inv & 1 else ""), ("!" if inv & 2 else "")
                m = f"{a}{b1}0*{b}{b2}1"
                r = f"{b}{b2}1*{a}{b1}0"
                out.append(f"R 0 1 2 3\nTICK\nMPP {m}\nTICK\nM 0 3")
                out.append(f"R 5\nTICK\nREPEAT 3 {{\nMPP {m}\nTICK\n}}\nM 5")
                out.append(f"H 4\nTICK\nREPEAT 2 {{\nMPP {r}\nTICK\nREPEAT 2 {{\nMPP {m} {b}{b2}2*{b1}3\nDETECTOR rec[-1]\nTICK\n}}\n}}\nMPP {m} Y2*Y4\nTICK\nM 4 0")
                out.append(f"MPP {m} Z3*X2\nMPP Y5*Y4\nH 6\nTICK\nREPEAT 2 {{\nREPEAT 2 {{\nTICK\nMPP X1*X0\n}}\nTICK\nMPP {r}\n}}\nTICK\nR 2")
    return out


def _row(job):
    seed, text = job
    rng = random.Random(seed)
    m, mrow, p = _model(rng)
    if text is None:
        biased = {**mrow, "g": {**mrow["g"]}}
        c = check_c06.program(rng, biased, False)
        for _ in range(4):
            c2 = check_c06.program(rng, {"g": {"MPP": 1, "R": 1, "M": 1}, "c1": -1, "c2": -1}, False, nq=rng.randrange(2, 7))
            c.append("TICK", [])
            c += c2
        if c.num_measurements > 300:
            c = stim.Circuit("MPP X0*X1")
    else:
        c = stim.Circuit(text)
    text = str(c)
    kw = {}
    if rng.random() < 0.2:
        kw["ancilla"] = c.num_qubits + rng.randrange(0, 4)
    if rng.random() < 0.2:
        kw["qs"] = {q for q in range(c.num_qubits) if rng.random() < 0.7}
    noisy = m.noisy_circuit(c, **kw)
    row = noisecirc.noise_row(c, noisy, unit=unit, model=mrow, mpp_p=p, qs=kw.get("qs"))
    row["label"] = f"p={p} args={kw} circuit {text!r}"
    return row


def run(chk):
    jobs = [(chk.rng.randrange(10 ** 9), t) for t in systematic()]
    jobs += [(chk.rng.randrange(10 ** 9), None) for _ in range(400 if chk.quick else 4000)]
    kept, rows = circuits.build_rows(chk, _row, jobs, lambda j: f"parity noise job {j}")
    labels = [r.pop("label") for r in rows]
    n = sum(a["k"] == "gad" for r in rows for ch in r["ch"] for a in ch["o"])
    chk.validate_traces("NoiseTrace", rows, describe=lambda i: labels[i])
    chk.count("parity_gadgets_checked", n)
    chk.sample(labels[0]), chk.sample(labels[-1])
    chk.assumptions.append("(1-2q)^16 = 1-p is evaluated in floating point (relative 1e-7) by the projection; everything else by the specification")
