"""C17: per-piece error rates (PerPiece.tla)."""
import circuits


def convert(x, n):
    from plotting import total_error_to_per_piece_error
    return float(total_error_to_per_piece_error(x, n))


def grid(arg):
    n, m = arg
    f = [convert(i / m, n) for i in range(m + 1)]
    return dict(n=n, f=[round(v * 10 ** 9) for v in f])


def run(chk):
    consts = dict(MaxDen=12, MaxTotal=200000) if chk.quick else dict(MaxDen=60, MaxTotal=10 ** 7)
    r = chk.tlc("PerPiece", consts=consts, env={"TRACES": "/dev/null"}, spec=("MInit", "MNext"), invariants=["Parity", "Report"])
    for it in r.items:
        n, (t, b), (a, d) = it["n"], it["t"], it["p"]
        try:
            got = convert(t / b, n)
            ok = abs(got - a / d) <= 1e-8
        except Exception as ex:
            got, ok = f"{type(ex).__name__}: {ex}", False
        if not ok:
            chk.violation(f"{n} pieces of {a}/{d} compose to {t}/{b}, which is converted to {got}")
    chk.count("compositions_replayed", len(r.items))
    chk.cov["traces_validated_against_impl"] += len(r.items)
    # Large numbers of pieces and tiny rates: composed in floating point.
    import math
    for n in (10, 36, 100, 1000, 10 ** 5):
        for p in (1e-3, 1e-4, 1e-6, 0.01, 0.2):
            tot = -math.expm1(n * math.log1p(-2 * p)) / 2
            if 0.5 - tot < 1e-6:
                continue
            got = convert(tot, n)
            if abs(got - p) > 1e-6 * p + 1e-14 / (0.5 - tot):
                chk.violation(f"{n} pieces of {p} compose to {tot}, which is converted to {got}")
    args = [(n, m) for n in list(range(1, 41)) + [100, 1000, 12345, 10 ** 6] for m in ((1000, 64, 125) if chk.quick else (1000, 64, 125, 10000, 8192))]
    kept, rows = circuits.build_rows(chk, grid, args, lambda a: f"{a[0]} pieces, grid of {a[1]}")
    chk.validate_traces("PerPiece", rows, describe=lambda i: f"{kept[i][0]} pieces, grid of {kept[i][1]}", consts=consts, spec=("TInit", "TNext"))
    chk.sample(r.items[len(r.items) // 2]), chk.sample(dict(n=rows[5]["n"], f=rows[5]["f"][:5]))
