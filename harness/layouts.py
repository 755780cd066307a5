"""Dumps what a layout object reports about its patch."""


def d(c):
    x, y = 2 * c.real, 2 * c.imag
    assert abs(x - round(x)) < 1e-9 and abs(y - round(y)) < 1e-9, c
    return [int(round(x)), int(round(y))]


def edge(e):
    return [d(e.left), d(e.right), d(e.center)]


def layout_row(c):
    from honeycomb_layout import HoneycombLayout
    lay = HoneycombLayout(data_width=c["w"], data_height=c["h"], sub_rounds=c["n"], style=c["style"],
                          obs=c["obs"], noise=c["p"])
    q2i = lay.q2i
    pts = sorted(q2i.items(), key=lambda kv: kv[1])
    pos = {q: i + 1 for i, (q, _) in enumerate(pts)}
    data, meas = list(lay.data_qubit_coords), list(lay.measure_qubit_coords)

    def locate(i):       # position in the sorted index table of a reported index
        return i + 1
    inv = {i: q for q, i in q2i.items()}
    hexes = [list(lay.round_hex_centers(r)) for r in range(3)]
    wrap = [complex(x, y) for x in (-3, -1, 0, 1, 2 * c["w"] - 1, 2 * c["w"], 2 * c["w"] + 3, 4 * c["w"] + 1)
            for y in (-1, -0.5, 0, 1.5, c["h"] - 0.5, c["h"], c["h"] + 2, 2 * c["h"] + 1)]

    def op(k, v):
        return {"k": k, "b": v[0], "q": [d(q) for q in v[1]]}
    ks = list(range(13)) + [99, 100, 1001, 1003]
    return {
        "w": c["w"], "h": c["h"], "style": c["style"], "obs": c["obs"],
        "data": [d(q) for q in data], "meas": [d(q) for q in meas],
        "q2i": [[d(q), i] for q, i in pts],
        "datai": [locate(i) for i in lay.data_qubit_indices], "measi": [locate(i) for i in lay.measure_qubit_indices],
        "edges": [[edge(e) for e in lay.round_edges(r)] for r in range(3)],
        "alledges": [edge(e) for e in lay.all_edges],
        "hexes": [[d(h) for h in hs] for hs in hexes],
        "around": [{"hex": d(h), "first": [edge(e) for e in lay.first_edges_around_hex(h)],
                    "second": [edge(e) for e in lay.second_edges_around_hex(h)],
                    "all": [edge(e) for e in lay.all_edges_around_hex(h)],
                    "qubits": [d(q) for q in lay.qubits_around_hex(h)]} for hs in hexes for h in hs],
        "half1": [d(inv[i]) for i in lay.data_qubit_indices_1st], "half2": [d(inv[i]) for i in lay.data_qubit_indices_2nd],
        "wrap": [[d(p), d(lay.wrap(p))] for p in wrap],
        "num": lay.num_qubits, "used": [d(q) for q in lay.used_qubit_coords],
        "usedi": [locate(i) for i in lay.used_qubit_indices],
        "basis": [lay.sub_round_edge_basis(k) for k in range(8)],
        "oph": [op(k, lay.obs_h_before_sub_round(k)) for k in ks], "opv": [op(k, lay.obs_v_before_sub_round(k)) for k in ks],
        "op": [op(k, lay.obs_before_sub_round(k)) for k in ks],
        "oedges": [edge(e) for e in lay.obs_edges], "hedges": [edge(e) for e in lay.obs_h_edges], "vedges": [edge(e) for e in lay.obs_v_edges],
        "oqubits": [d(q) for q in lay.obs_qubits], "hqubits": [d(q) for q in lay.obs_h_qubits], "vqubits": [d(q) for q in lay.obs_v_qubits],
        "oindex": lay.obs_index,
    }


def layout_cfgs(chk):
    import circuits
    out = []
    sizes = [(w, h) for w in range(2, 13, 2) for h in range(6, 31, 6)] + [(4, 6 * u) for u in (4, 6)] + [(20, 6), (2, 36), (12, 18)]
    if not chk.quick:
        sizes += [(4 * u, 6 * u) for u in (3, 4, 5)] + [(w, h) for w in (14, 16, 18, 22) for h in (6, 12, 18)]
    for i, (w, h) in enumerate(dict.fromkeys(sizes)):
        big = w * h > 150
        combos = [(s, o) for s in circuits.STYLES for o in "HV"]
        if big:
            combos = [combos[(i * 3 + chk.seed) % 10], combos[(i * 3 + 5 + chk.seed) % 10]]
        elif chk.quick and w * h > 40:
            combos = combos[(i % 2)::2]
        for s, o in combos:
            out.append(dict(w=w, h=h, n=3, style=s, obs=o, p=chk.rng.choice([0, 0.001])))
    return out
