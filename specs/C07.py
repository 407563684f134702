from spec import spec
NATIVE = 8
def shape(S, d):
    S.val("rank", len(d))
    for k, x in enumerate(d): S.val("s%d" % k, x)
def io(S, X, G, dx, dg, sfx=""):
    S.out("X" + sfx, dx, X); S.out("G" + sfx, dg, G)
def reg(h, names, f, first=None):
    """f(S, dims, sfx) -> (input extents, output extents, value(X, i...), gradient(G, i...))"""
    @spec("vf_" + h)
    def _(S):
        for sfx, ns in (("1", first), ("", names)):
            if ns is None: continue
            dx, dg, y, g = f(S, S.dims(*ns)); X = S.A("X" + sfx, *dx); G = S.A("G" + sfx, *dg)
            S.out("Y" + sfx, dg, lambda *i: y(X, *i)); S.out("GX" + sfx, dx, lambda *i: g(G, *i))
            if sfx == "": S.out("X", dx, X); S.out("G", dg, G); shape(S, dg)
reg("tr", "mn", lambda S, d: (d, [d[1], d[0]], lambda X, i, j: X(j, i), lambda G, i, j: G(j, i)), "pq")
reg("tr_tr", "mn", lambda S, d: (d, d, lambda X, i, j: X(i, j), lambda G, i, j: G(i, j)))
def flip(ax):
    def f(S, d):
        a = ax if ax < len(d) else len(d) - 1
        r = lambda F: (lambda *i: F(*[d[a] - 1 - x if k == a else x for k, x in enumerate(i)]))
        return d, d, lambda X, *i: r(X)(*i), lambda G, *i: r(G)(*i)
    return f
reg("flip_10", "n", flip(0), "p")
for n, ax, fst in (("20", 0, "pq"), ("21", 1, "pq"), ("2d", 1, "pq")): reg("flip_" + n, "mn", flip(ax), fst)
for n, ax, fst in (("30", 0, "pq"), ("31", 1, "pq"), ("32", 2, "pqr")): reg("flip_" + n, "lmn", flip(ax), fst)
for ax in range(4): reg("flip_4%d" % ax, "klmn", flip(ax))
# row-major renumbering: cell number t of one shape is cell number t of the other
def off(d, i):
    o = 0
    for k, x in enumerate(i): o = o * d[k] + x
    return o
def ren(h, fd, names, first=None):
    @spec("vf_" + h)
    def _(S):
        for sfx, ns in (("1", first), ("", names)):
            if ns is None: continue
            dx, dg = fd(S, S.dims(*ns)); X = S.flat("X" + sfx); G = S.flat("G" + sfx)
            S.out("Y" + sfx, dg, lambda *i: X(off(dg, i))); S.out("GX" + sfx, dx, lambda *i: G(off(dx, i)))
            if sfx == "": S.out("X", dx, S.A("X", *dx)); S.out("G", dg, S.A("G", *dg)); shape(S, dg)
ren("reshape_b", lambda S, d: ([d[0], d[1], d[2]], [d[0], d[1] * d[2]]), "lmn", "pmn")
ren("reshape_b2", lambda S, d: ([d[0], d[1] * d[2]], [d[0], d[1], d[2]]), "lmn", "pmn")
ren("reshape_n", lambda S, d: ([d[0], d[1] * d[2]], [d[2], d[1], d[0]]), "lmn")
def fl(S, d):
    t = 1
    for x in d[1:]: t = t * x
    return d, [d[0], t]
ren("flatten2", fl, "mn", "pqr"); ren("flatten3", fl, "lmn", "pq"); ren("flatten4", fl, "klmn")
def ins(ax): return lambda S, d: (d, (d[:ax] + [1] + d[ax:]) if ax >= 0 else d + [1])
ren("expand0", ins(0), "mn", "p"); ren("expand1", ins(1), "mn", "p"); ren("expand2", ins(2), "mn", "pqr"); ren("expandl", ins(-1), "mn", "p")
def sq(ax): return lambda S, d: (d[:ax] + [1] + d[ax:], d)
ren("squeeze0", sq(0), "mn", "p"); ren("squeeze1", sq(1), "mn", "p"); ren("squeeze2", sq(2), "mn")
ren("squeezea", lambda S, d: ([1, d[0], 1, d[1], 1], d), "mn")
reg("bcast1", "mn", lambda S, d: ([d[1]], d, lambda X, i, j: X(j), lambda G, j: S.sum(d[0], lambda t: G(t, j))))
reg("bcast2", "mn", lambda S, d: ([1, d[1]], d, lambda X, i, j: X(0, j), lambda G, z, j: S.sum(d[0], lambda t: G(t, j))))
@spec("vf_bcast3")
def _(S):
    l, m, n = S.dims("l", "m", "n"); X1 = S.A("X1", m, n); G1 = S.A("G1", l, m, n); X = S.A("X", n); G = S.A("G", l, m, n)
    S.out("Y1", [l, m, n], lambda i, j, k: X1(j, k)); S.out("GX1", [m, n], lambda j, k: S.sum(l, lambda t: G1(t, j, k)))
    S.out("Y", [l, m, n], lambda i, j, k: X(k)); S.out("GX", [n], lambda k: S.sum(l * m, lambda t: S.flat("G")(t * n + k)))
    S.out("X", [n], X); S.out("G", [l, m, n], G); shape(S, [l, m, n])
reg("bcast_same", "mn", lambda S, d: (d, d, lambda X, i, j: X(i, j), lambda G, i, j: G(i, j)))
reg("ident", "mn", lambda S, d: (d, d, lambda X, i, j: -X(i, j), lambda G, i, j: -G(i, j)))
def rep(ax):
    def f(S, d):
        c = S.d("c"); a = ax if ax >= 0 else len(d) - 1
        dg = [x * c if k == a else x for k, x in enumerate(d)]
        return d, dg, lambda X, *i: X(*[S.div(x, c) if k == a else x for k, x in enumerate(i)]), lambda G, *i: S.sum(c, lambda t: G(*[x * c + t if k == a else x for k, x in enumerate(i)]))
    return f
reg("rep_10", "n", rep(0), "p")
reg("rep_20", "mn", rep(0), "pq"); reg("rep_21", "mn", rep(1), "pq"); reg("rep_2d", "mn", rep(-1), "pqr")
reg("rep_30", "lmn", rep(0), "pq"); reg("rep_31", "lmn", rep(1), "pq"); reg("rep_32", "lmn", rep(2), "pqr")
reg("rep_1", "mn", lambda S, d: (d, d, lambda X, i, j: X(i, j), lambda G, i, j: G(i, j)))
def up(S, d):
    t = S.d("t"); b, h, w, c = d
    return d, [b, h * t, w * t, c], lambda X, i, y, x, k: X(i, S.div(y, t), S.div(x, t), k), lambda G, i, y, x, k: S.sum(t, lambda u: S.sum(t, lambda v: G(i, y * t + u, x * t + v, k)))
reg("up", "bhwc", up, "pqrs"); reg("up2", "bhwc", up)
def pad(t, u, v, x):
    def f(S, d):
        T, U, V, W = S.dims(t, u, v, x); b, h, w, c = d; dg = [b, T + h + U, V + w + W, c]
        def y(X, i, r, q, k):
            ins = S.conj(S.le(T, r), S.lt(r, T + h), S.le(V, q), S.lt(q, V + w))
            return S.ite(ins, X(i, r - T, q - V, k), 0)
        return d, dg, y, lambda G, i, r, q, k: G(i, r + T, q + V, k)
    return f
def crop(t, u, v, x):
    def f(S, d):
        T, U, V, W = S.dims(t, u, v, x); b, h, w, c = d; dx = [b, T + h + U, V + w + W, c]
        def g(G, i, r, q, k):
            ins = S.conj(S.le(T, r), S.lt(r, T + h), S.le(V, q), S.lt(q, V + w))
            return S.ite(ins, G(i, r - T, q - V, k), 0)
        return dx, d, lambda X, i, r, q, k: X(i, r + T, q + V, k), g
    return f
for h, f in (("pad", pad), ("crop", crop)):
    reg(h + "1", "bhwc", f("t", "t", "t", "t"), "pqrs"); reg(h + "2", "bhwc", f("t", "t", "v", "v")); reg(h + "4", "bhwc", f("t", "u", "v", "x"), "pqrs")
reg("pad_crop", "bhwc", lambda S, d: (d, d, lambda X, *i: X(*i), lambda G, *i: G(*i)))
@spec("vf_slide_predict")
def _(S):
    d = S.dims(*"bhwc"); X = S.A("X", *d); S.out("Y", d, X); S.out("X", d, X); shape(S, d)
def cat(h, names, ax):
    @spec("vf_cat_" + h)
    def _(S):
        d = S.dims(*names); p, q = S.dims("p", "q"); at = lambda v: d[:ax] + [v] + d[ax:]
        A = S.A("A", *at(p)); B = S.A("B", *at(q)); G = S.A("G", *at(p + q))
        sh = lambda i, s: [x + s if k == ax else x for k, x in enumerate(i)]
        S.out("Y", at(p + q), lambda *i: S.ite(S.lt(i[ax], p), A(*i), B(*sh(i, -p)))); S.out("GA", at(p), lambda *i: G(*i)); S.out("GB", at(q), lambda *i: G(*sh(i, p)))
        S.out("A", at(p), A); S.out("B", at(q), B); S.out("G", at(p + q), G); shape(S, at(p + q))
cat("10", "", 0); cat("20", "r", 0); cat("2c0", "r", 0); cat("30", "rs", 0); cat("31", "rs", 1); cat("32", "rs", 2); cat("43", "rst", 3)
for h in ("21", "2d", "2k", "2c"): cat(h, "r", 1)
@spec("vf_cat_self")
def _(S):
    m, n = S.dims("m", "n"); A = S.A("A", m, n); G = S.A("G", m + m, n)
    S.out("Y", [m + m, n], lambda i, j: S.ite(S.lt(i, m), A(i, j), A(i - m, j))); S.out("GA", [m, n], lambda i, j: G(i, j) + G(i + m, j)); S.out("A", [m, n], A); S.out("G", [m + m, n], G); shape(S, [m + m, n])
for h, v in (("ones", 1), ("zeros", 0)): reg(h, "mn", lambda S, d, v=v: (d, d, lambda X, *i: v, lambda G, *i: 0), "p")
