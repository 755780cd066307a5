"""C03: every detector and the observable are deterministic without noise."""
import circuits
import vlib


def surface_row(path):
    import stim
    return circuits.flow_row(stim.Circuit.from_file(path))


def run(chk):
    cfgs = circuits.honeycomb_cfgs(chk)
    kept, rows = circuits.build_rows(chk, circuits.honeycomb_flow_row, cfgs, circuits.cfg_label)
    names = [circuits.cfg_label(c) for c in kept]
    d = vlib.REPO / "src/paper/surface_code_circuits"
    files = sorted(str(p) for p in d.rglob("*.stim"))
    if chk.quick:
        files = [f for f in files if any(k in f for k in ("/d3_", "/d7_", "/d11_"))]
    fk, fr = circuits.build_rows(chk, surface_row, files)
    names += fk
    rows += fr
    order = sorted(range(len(rows)), key=lambda i: -len(rows[i]["ev"]) * rows[i]["nq"])
    rows, names = [rows[i] for i in order], [names[i] for i in order]
    chk.validate_traces("DetectorFlow", rows, describe=lambda i: names[i], env={"SCOPE": "C03"})
    chk.count("surface_code_files", len(fr))
    for i in (0, len(rows) // 2, len(rows) - 1):
        chk.sample({"circuit": names[i], "instructions": len(rows[i]["ev"]), "qubits": rows[i]["nq"]})
