"""C19: fault tolerance.  DetectorFlow yields the symptoms of every elementary fault of the generated noisy
circuit; FaultSearch looks for fault sets below the promised distance that flip the observable unseen."""
import circuits


def promised(c):
    em = c["style"].startswith("EM3")
    if c["obs"] == "V":
        return c["w"] // 2 if em else c["w"]
    return c["h"] // 3 if em else c["h"] // 2


def cfgs(chk):
    out = []

    def add(w, h, n, s, o):
        c = dict(w=w, h=h, n=n, style=s, obs=o, p=0.001, noise=True)
        if circuits.legal(c) and c not in out:
            out.append(c)
    for s in circuits.STYLES:
        for o in "HV":
            for n in (1, 2, 3, 4, 5, 6, 7, 9, 11, 13, 15) if chk.quick else range(1, 22):
                if s == "EM3_v2" and n > 7 and chk.quick:
                    continue
                add(4, 6, n, s, o)
            for n in (3, 6, 12) if chk.quick else (1, 2, 3, 4, 5, 6, 9, 12):
                if s == "EM3_v2" and n > (3 if chk.quick else 6):
                    continue
                add(6, 12, n, s, o) if not chk.quick else add(*chk.rng.choice([(4, 12), (6, 6), (6, 12)]), n, s, o)
    if not chk.quick:
        for s in ("SD6", "PC3", "SI1000", "EM3"):
            for o in "HV":
                add(8, 12, 9, s, o)
                add(4, 18, 9, s, o)
    return out




def fault_problem(c, row, faults):
    limit = promised(c) - 1
    dt = row["dt"]
    import networkx as nx
    g = nx.Graph()
    seeds = set()
    for f in faults:
        d = sorted(x for x in f if x > 0)
        parts = [d] if len(d) <= 2 else [[x for x in d if dt[x - 1] % 2 == k] for k in (0, 1)]
        for part in parts:
            g.add_nodes_from(part)
            for a, b in zip(part, part[1:]):
                g.add_edge(a, b)
        if any(x < 0 for x in f) and len(d) <= 2:
            seeds.update(d)
    keep = set()
    for comp in nx.connected_components(g):
        if comp & seeds:
            keep |= comp
    return make_problem(faults, keep, limit), limit


def make_problem(faults, keep, limit):
    proj = {(tuple(sorted(x for x in f if x > 0 and x in keep)), sum(1 for x in f if x < 0) % 2) for f in faults}
    proj = sorted(p for p in proj if p[0] or p[1])
    ids = {d: i + 1 for i, d in enumerate(sorted(keep))}
    fl = [{"d": [ids[x] for x in d], "o": o} for d, o in proj]
    at = [[] for _ in ids]
    for i, f in enumerate(fl):
        for d in f["d"]:
            at[d - 1].append(i + 1)
    return {"f": fl, "at": at, "limit": limit, "deg": max([1] + [len(f["d"]) for f in fl])}


def search(chk, probs, timeout):
    p = chk.write_ndjson(f"faults-{len(list(chk.scratch.iterdir()))}.ndjson", probs)
    r = chk.tlc("FaultSearch", env={"TRACES": p}, view="View", invariants=["Report"], timeout=timeout)
    bad = {}
    for it in r.items:
        bad.setdefault(it["fail"], it["faults"])
    return bad


def run(chk):
    cs = cfgs(chk)
    kept, rows = circuits.build_rows(chk, circuits.honeycomb_flow_row, cs, circuits.cfg_label)
    r = chk.validate_traces("DetectorFlow", rows, describe=lambda i: circuits.cfg_label(kept[i]), env={"SCOPE": "C19"})
    faults = [set() for _ in rows]
    for it in r.items:
        if "f" in it:
            for f in it["f"]:
                faults[it["tr"] - 1].add(frozenset(f))
    probs = []
    for c, row, fs in zip(kept, rows, faults):
        probs.append(fault_problem(c, row, fs)[0])
    bad = search(chk, probs, 800 if chk.quick else 6000)
    if bad:
        # Confirm on the complete symptom sets: the projection only gives lower bounds.
        idx = sorted(bad)
        full = [make_problem(faults[i - 1], {x for f in faults[i - 1] for x in f if x > 0}, promised(kept[i - 1]) - 1) for i in idx]
        bad2 = search(chk, full, 800 if chk.quick else 6000)
        for k, fs in bad2.items():
            c = kept[idx[k - 1] - 1]
            chk.violation(f"{circuits.cfg_label(c)}: {len(fs)} faults flip the observable undetected; promised distance {promised(c)}",
                          [full[k - 1]["f"][j - 1] for j in fs])
    chk.count("fault_sets_searched_problems", len(probs))
    chk.count("elementary_faults", sum(len(f) for f in faults))
    chk.sample({"experiment": circuits.cfg_label(kept[-1]), "faults": len(faults[-1]), "limit": probs[-1]["limit"]})
    chk.assumptions.append("fault model: every Pauli component of every noise instruction the generated circuit contains")
