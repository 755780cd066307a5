"""C05: the tracked observable (design model, reported operators, and circuits)."""
import check_c02
import circuits
import layouts


def run(chk):
    mw, mh = (6, 12) if chk.quick else (10, 24)
    chk.tlc("HoneycombCode", consts={"MaxW": mw, "MaxH": mh}, invariants=["Tracked", "Conjugate", "Period"])
    cfgs = layouts.layout_cfgs(chk)
    kept, rows = circuits.build_rows(chk, layouts.layout_row, cfgs, circuits.cfg_label)
    chk.validate_traces("Layout", rows, describe=lambda i: "layout " + circuits.cfg_label(kept[i]), env={"SCOPE": "C05"})
    check_c02.run(chk, scope="C05")
