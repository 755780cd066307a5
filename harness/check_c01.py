"""C01: layouts are correctly indexed, 3-coloured honeycomb tori; untileable sizes are refused."""
import circuits
import layouts


def run(chk):
    mw, mh = (6, 12) if chk.quick else (10, 24)
    chk.tlc("HoneycombCode", consts={"MaxW": mw, "MaxH": mh}, invariants=["Geometry", "Conserved", "Established"])
    cfgs = layouts.layout_cfgs(chk)
    kept, rows = circuits.build_rows(chk, layouts.layout_row, cfgs, circuits.cfg_label)
    chk.validate_traces("Layout", rows, describe=lambda i: "layout " + circuits.cfg_label(kept[i]), env={"SCOPE": "C01"})
    from honeycomb_layout import HoneycombLayout
    refused = 0
    for w in range(1, 13):
        for h in range(1, 31):
            if w % 2 == 0 and h % 6 == 0:
                continue
            try:
                HoneycombLayout(data_width=w, data_height=h, sub_rounds=3, style="SD6", obs="H", noise=0)
            except Exception:
                refused += 1
            else:
                chk.violation(f"size {w}x{h} cannot be tiled but was accepted")
    chk.count("refused_sizes", refused)
    chk.sample({"layout": circuits.cfg_label(kept[0]), "edges": len(rows[0]["alledges"])})
