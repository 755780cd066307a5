"""Projection of (source circuit, noisy circuit) pairs to rows of NoiseTrace.tla."""
import stim
from circuits import GATES1, GATES2, NOISE, mpp_groups

ANN = {"OBSERVABLE_INCLUDE", "DETECTOR", "SHIFT_COORDS", "QUBIT_COORDS"}
MEAS = {"M", "MX", "MY", "R", "RX", "RY"}
TWO_NOISE = {"DEPOLARIZE2", "PAULI_CHANNEL_2"}


def atoms_of(op, unit):
    """The atoms of one (non-block, non-tick) instruction."""
    name, t, args = op.name, op.targets_copy(), op.gate_args_copy()
    base = {"k": "op", "g": name, "t": [], "b": [], "v": 0, "x": "", "a": 0}
    if name in NOISE:
        a = unit(args[0]) if len(args) == 1 else -7
        if name in ("E", "CORRELATED_ERROR", "ELSE_CORRELATED_ERROR"):
            return [{"k": "nz", "g": "E" if name != "ELSE_CORRELATED_ERROR" else name, "t": [x.value + 1 for x in t], "a": a, "q": args[0],
                     "p": [["X" if x.is_x_target else "Y" if x.is_y_target else "Z", x.value + 1] for x in t]}]
        n = 2 if name in TWO_NOISE else 1
        return [{"k": "nz", "g": name, "t": [x.value + 1 for x in t[i:i + n]], "a": a} for i in range(0, len(t), n)]
    if name == "QUBIT_COORDS":
        return [dict(base, x=f"{args} {x.value}") for x in t]
    if name in ANN:
        return [dict(base, x=f"{args} {[repr(x) for x in t]}")]
    a = unit(args[0]) if len(args) == 1 else 0
    if name == "MPP":
        return [dict(base, t=[x[1] for x in g], b=[x[0] for x in g], v=sum(x[2] for x in g) % 2, a=a) for g in mpp_groups(t)]
    if name in GATES2 or all(x.is_qubit_target for x in t) and stim.gate_data(name).is_two_qubit_gate:
        return [dict(base, t=[t[i].value + 1, t[i + 1].value + 1], a=a) for i in range(0, len(t), 2)]
    return [dict(base, t=[x.value + 1], v=int(x.is_inverted_result_target), a=a) for x in t]


def chunks_of(circuit, unit):
    """[[moment, ...], ...]: moments (lists of atoms) grouped into tick-delimited chunks."""
    chunks, chunk, moment = [], [], []

    def end_moment():
        nonlocal moment
        if moment:
            chunk.append(moment)
        moment = []

    def walk(c):
        nonlocal chunk
        for op in c:
            if isinstance(op, stim.CircuitRepeatBlock):
                end_moment()
                body = op.body_copy()
                for _ in range(op.repeat_count):
                    walk(body)
                    end_moment()
            elif op.name == "TICK":
                end_moment()
                chunks.append(chunk)
                chunk = []
            else:
                moment.extend(atoms_of(op, unit))
    walk(circuit)
    end_moment()
    chunks.append(chunk)
    return chunks


def fold_gadgets(atoms, nq, p):
    """Everything from the reset of a foreign qubit to its measurement becomes one gadget atom."""
    out, k = [], 0
    while k < len(atoms):
        a = atoms[k]
        if a["k"] == "op" and a["g"] in ("R", "RX", "RY") and a["t"] and a["t"][0] > nq:
            anc = a["t"][0]
            j = k + 1
            while j < len(atoms) and not (atoms[j]["k"] == "op" and atoms[j]["g"] in ("M", "MX", "MY") and atoms[j]["t"] == [anc]):
                j += 1
            ev = []
            for x in atoms[k:j + 1]:
                e = {"g": x["g"], "t": x["t"], "v": x.get("v", 0), "p": x.get("p", []), "u": 0}
                if x["g"] == "E":
                    e["u"] = int(abs((1 - 2 * x["q"]) ** 16 - (1 - p)) < 1e-7 * p + 1e-13)
                ev.append(e)
            qs = sorted({q for x in atoms[k:j + 1] for q in x["t"]} - {anc})
            out.append({"k": "gad", "anc": anc, "t": qs, "ev": ev})
            k = j + 1
        else:
            out.append(a)
            k += 1
    return out


def noise_row(src, noisy, *, unit, model=None, named="", qs=None, mpp_p=0.0):
    """noisy: stim.Circuit, or None when the model refused the circuit."""
    nq = src.num_qubits
    S = chunks_of(src, unit)
    row = {"nq": nq, "qs": [q + 1 for q in (range(nq) if qs is None else sorted(qs))], "named": named,
           "model": model or {}, "refused": int(noisy is None), "shape": 1, "foreign": [], "ch": []}
    N = chunks_of(noisy, unit) if noisy is not None else [[] for _ in S]
    if len(N) != len(S):
        row["shape"] = 0
    foreign = set()
    for s, n in zip(S, N):
        atoms = fold_gadgets([a for m in n for a in m], nq, mpp_p)
        for a in atoms:
            foreign |= {q for q in a["t"] if q > nq}
            if a["k"] == "gad":
                foreign.add(a["anc"])
        top = max(nq, max(row["qs"], default=0))
        sq = [[] for _ in range(top)]
        oq = [[] for _ in range(top)]
        for mi, m in enumerate(s):
            for oi, a in enumerate(m):
                for q in a["t"]:
                    sq[q - 1].append([mi + 1, oi + 1])
        for i, a in enumerate(atoms):
            a.pop("p", None)
            a.pop("q", None)
            for q in dict.fromkeys(a["t"]):
                if q <= top:
                    oq[q - 1].append(i + 1)
        row["ch"].append({"m": s, "o": atoms, "sq": sq, "oq": oq})
    row["nq"] = max(nq, max(row["qs"], default=0))
    row["foreign"] = sorted(q for q in foreign if q > nq)
    return row
