"""C08: every experiment carries exactly its named error model (NoiseTrace.tla's table)."""
import functools
import importlib.util
import stim
import circuits
import noisecirc
import vlib


@functools.cache
def paper_module():
    path = vlib.REPO / "src/paper/main_collect_all.py"
    spec = importlib.util.spec_from_file_location("main_collect_all_under_test", path)
    mod = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(mod)
    return mod


def unit_for(p):
    def unit(x):
        r = x / p * 1000
        return int(round(r)) if abs(r - round(r)) < 1e-6 else -5
    return unit


def _row(cfg):
    p = cfg["p"]
    if "d" in cfg:
        mod = paper_module()
        directory = str(vlib.REPO / "src/paper/surface_code_circuits")
        mod.surface_code_circuit(directory, cfg["style"], p / 2, cfg["obs"], cfg["d"])        # another strength first
        noisy = mod.surface_code_circuit(directory, cfg["style"], p, cfg["obs"], cfg["d"])
        src = stim.Circuit.from_file(f"{directory}/{cfg['style'].lower()}_{cfg['obs']}/d{cfg['d']}_p0.0.stim")
    else:
        from honeycomb_layout import HoneycombLayout
        kw = dict(data_width=cfg["w"], data_height=cfg["h"], sub_rounds=cfg["n"], style=cfg["style"], obs=cfg["obs"])
        src = HoneycombLayout(noise=0, **kw).make_circuit()
        HoneycombLayout(noise=p / 2, **kw).make_circuit()                                      # another strength first
        noisy = HoneycombLayout(noise=p, **kw).make_circuit()
    return noisecirc.noise_row(src, noisy, unit=unit_for(p), named=cfg["style"], mpp_p=p)


def cfgs(chk):
    rng, out = chk.rng, []
    ps = [0.001, 0.0001, 0.01, 0.002, 0.0123, 0.1, 1e-6, 0.0000125, 3e-9, 0.000337, 0.2, 0.15, 0.12]
    strong = [0.3, 0.5, 0.74]        # beyond what SI1000's readout (5 p) allows

    def add(w, h, n, s, o):
        p = ps + strong if s != "SI1000" else ps
        c = dict(w=w, h=h, n=n, style=s, obs=o, p=p[len(out) % len(p)])
        if circuits.legal(c):
            out.append(c)
    for s in circuits.STYLES:
        for o in "HV":
            for n in range(1, 13 if chk.quick else 25):
                add(2, 6, n, s, o)
            for n in (1, 2, 3, 6, 7, 9, 12):
                add(4, 12, n, s, o)
        for i in range(6 if chk.quick else 60):
            w, h = rng.choice([(4, 6), (6, 6), (2, 12), (8, 6), (2, 18), (6, 12), (8, 12)] + ([] if chk.quick else [(10, 12), (8, 24), (12, 18)]))
            add(w, h, rng.choice([3, 6, 9, 12]) if s == "SI1000" else rng.randrange(1, 14), s, rng.choice("HV"))
    ds = [3, 7] if chk.quick else [3, 7, 11, 15]
    for s in ("SD6", "SI1000"):
        for o in "XZ":
            for d in ds:
                for p in ([0.001] if d > 3 else [0.001, 0.004]):
                    out.append(dict(w=0, h=0, n=0, d=d, style=s, obs=o, p=p))
    return out


def label(c):
    return f"surface {c['style']} {c['obs']} d={c['d']} p={c['p']}" if "d" in c else circuits.cfg_label(c)


def run(chk):
    kept, rows = circuits.build_rows(chk, _row, cfgs(chk), label)
    chk.count("chunks", sum(len(r["ch"]) for r in rows))
    chk.count("experiments_honeycomb", sum("d" not in c for c in kept))
    chk.count("experiments_surface", sum("d" in c for c in kept))
    chk.validate_traces("NoiseTrace", rows, describe=lambda i: label(kept[i]))
    chk.sample(label(kept[0])), chk.sample(label(kept[-1]))
