"""C02: the generated circuits perform exactly the honeycomb measurement schedule."""
import circuits


def run(chk, scope="C02"):
    cfgs = circuits.honeycomb_cfgs(chk)
    kept, rows = circuits.build_rows(chk, circuits.honeycomb_row, cfgs, circuits.cfg_label)
    # Long traces first, so that TLC's workers finish together.
    order = sorted(range(len(rows)), key=lambda i: -len(rows[i]["ev"]) * len(rows[i]["co"]))
    kept, rows = [kept[i] for i in order], [rows[i] for i in order]
    chk.validate_traces("HoneycombTrace", rows, describe=lambda i: circuits.cfg_label(kept[i]), env={"SCOPE": scope})
    for c, r in list(zip(kept, rows))[-3:]:
        chk.sample({"experiment": circuits.cfg_label(c), "instructions": len(r["ev"]), "qubits": len(r["co"])})
    chk.assumptions += [
        "experiments: every style/observable/length up to the stated bounds on 2x6 and 4x12, rotating larger sizes and lengths",
        "Pauli signs (which of the two eigenvalues) are not tracked; C03 covers determinism",
    ]
