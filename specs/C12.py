from spec import spec
NATIVE = 10
def dr(d, ax): return [x for i, x in enumerate(d) if i != ax]
def ins(i, ax, t): return list(i[:ax]) + [t] + list(i[ax:])
def cut(i, ax): return [x for k, x in enumerate(i) if k != ax]
def body(S, kind, d, ax, sfx):
    X = S.A("X" + sfx, *d); o = dr(d, ax); G = S.A("G" + sfx, *o); n = d[ax]
    if kind == "rsum":
        S.out("Y" + sfx, o, lambda *i: S.sum(n, lambda t: X(*ins(i, ax, t)))); S.out("GX" + sfx, d, lambda *i: G(*cut(i, ax)))
    elif kind in ("rmin", "rmax"):
        ext = S.min if kind == "rmin" else S.max
        E = lambda i: ext(n, lambda t: X(*ins(i, ax, t)))
        S.out("Y" + sfx, o, lambda *i: E(i))
        # the gradient goes to cells that attain the extremum, in total the upstream gradient
        S.out("GX" + sfx, d, lambda *i: 0, where=lambda *i: S.neg(S.eq(X(*i), E(cut(i, ax)))))
        GX = S.got("GX" + sfx, *d)
        S.every("total gradient of the reduced slice", o, lambda *i: S.sum(n, lambda t: GX(*ins(i, ax, t))), lambda *i: G(*i))
    else:
        ext = S.min if kind == "amin" else S.max
        Y = S.got("Y" + sfx, *o)
        S.shape_of("Y" + sfx, o)
        S.allhold("position inside the axis", o, lambda *i: S.conj(S.le(0, Y(*i)), S.lt(Y(*i), n)))
        S.every("cell at the position is the extremum", o, lambda *i: X(*ins(i, ax, Y(*i))), lambda *i: ext(n, lambda t: X(*ins(i, ax, t))))
        S.out("GX" + sfx, d, lambda *i: 0)
def reg(h, kind, n1, n2, ax):
    @spec(h)
    def _(S):
        if n1: body(S, kind, S.dims(*n1), ax, "1")
        d = S.dims(*n2); body(S, kind, d, ax, "")
        if n1: S.out("X", d, S.A("X", *d)); S.out("G", dr(d, ax), S.A("G", *dr(d, ax)))
        S.val("rank", len(d) - 1)
        for k, x in enumerate(dr(d, ax)): S.val("s%d" % k, x)
for k in ("rsum", "rmin", "rmax", "amax", "amin"):
    for s, a, b, ax in (("20", "pq", "mn", 0), ("21", "pq", "mn", 1), ("30", "pq", "lmn", 0), ("31", "pq", "lmn", 1), ("32", "pqr", "lmn", 2)): reg("vf_%s_%s" % (k, s), k, a, b, ax)
for k in ("rsum", "rmin", "rmax"): reg("vf_%s_def" % k, k, None, "lmn", 2)
def tot(S, d, X):
    if len(d) == 1: return S.sum(d[0], lambda t: X(t))
    return S.sum(d[0], lambda t: S.sum(d[1], lambda u: X(t, u)))
def whole(h, mean):
    @spec(h)
    def _(S):
        m, n, p = S.dims("m", "n", "p")
        for sfx, d in (("1", [p]), ("", [m, n])):
            X = S.A("X" + sfx, *d); G = S.A("G" + sfx, 1); sz = d[0] if len(d) == 1 else d[0] * d[1]
            S.out("Y" + sfx, [1], lambda i: S.sum(sz, S.flat("X" + sfx)) / (sz if mean else 1))
            if not mean: S.out("GX" + sfx, d, lambda *i: G(0))
        S.out("X", [m, n], S.A("X", m, n))
        if not mean: S.out("G", [1], S.A("G", 1))
        S.val("rank", 1); S.val("s0", 1)
for h in ("vf_sum", "vf_sum2"): whole(h, False)
for h in ("vf_mean", "vf_mean2", "vf_mean3"): whole(h, True)
@spec("vf_mean_grad")
def _(S):
    m, n = S.dims("m", "n"); G = S.A("G", 1); S.out("GX", [m, n], lambda i, j: G(0) / (m * n)); S.out("G", [1], G)
@spec("vf_mean_col")
def _(S):
    m, = S.dims("m"); G = S.A("G", 1); S.out("GX", [m, 1], lambda i, j: G(0) / m); S.out("G", [1], G)
@spec("vf_mean_uniform")
def _(S):
    m, n = S.dims("m", "n"); G = S.A("G", 1); H = S.A("H", 1); X = S.got("GX", m, n); Z = S.got("GZ", m, n)
    S.shape_of("GX", [m, n]); S.shape_of("GZ", [m, n]); S.val("same", m * n)
    S.every("same gradient in every cell", [m, n], lambda i, j: X(i, j), lambda i, j: X(0, 0))
    S.every("gradient proportional to the upstream gradient", [m, n], lambda i, j: X(i, j) * H(0), lambda i, j: Z(i, j) * G(0))
    S.out("X", [m, n], S.A("X", m, n)); S.out("G", [1], G)
