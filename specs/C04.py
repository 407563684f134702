from spec import spec
NATIVE = 10
def Q(S, d):
    t = 1
    for x in d: t = t * x
    for n in ("size", "size2"): S.val(n, t)
    for n in ("ndim", "ndim2"): S.val(n, len(d))
def reg(h, f):
    @spec("vf_" + h)
    def _(S): f(S)
def s(h, names):
    """decorator: f(S, *dims)"""
    def d(f):
        @spec("vf_" + h)
        def _(S): f(S, *S.dims(*names))
    return d
def off(d, i):
    o = 0
    for k, x in enumerate(i): o = o * d[k] + x
    return o
def ren(S, name, src, dims):
    F = S.flat(src); S.out(name, dims, lambda *i: F(off(dims, i)))
def const(S, name, dims, v): S.out(name, dims, lambda *i: v)
def keep(S, name, *dims): S.out(name, list(dims), S.A(name, *dims))
@s("mk1", "n")
def _(S, n): const(S, "Z", [n], 0); Q(S, [n])
@s("mk3", "lmn")
def _(S, l, m, n): const(S, "Z", [l, m, n], 0); Q(S, [l, m, n])
@s("mk_list", "mn")
def _(S, m, n): const(S, "Z", [m, n], 0); Q(S, [m, n])
@s("mk_val", "lmn")
def _(S, l, m, n): const(S, "A", [l, m, n], S.x("s")); const(S, "B", [m, n], S.x("s"))
@s("mk_init", "")
def _(S):
    a, b = S.x("s"), S.x("t"); S.out("A", [2, 1], lambda i, j: S.ite(S.eq(i, 0), a, b)); S.out("B", [1, 3], lambda i, j: S.ite(S.eq(j, 1), a, b))
@s("mk_none", "")
def _(S): S.val("size", 0); S.val("ndim", 0)
@s("mk_zeros", "lmn")
def _(S, l, m, n): const(S, "Z", [l, m, n], 0); const(S, "Z2", [m, n], 0)
@s("mk_ones", "lmn")
def _(S, l, m, n): const(S, "A", [l, m, n], 1); const(S, "C", [m, n], 1)
@s("as_tensor", "")
def _(S): const(S, "A", [1], S.x("s")); S.val("v", S.x("s"))
@s("copy_shares", "mn")
def _(S, m, n):
    A = S.A("A", m, n)
    for x in "ABC": S.out(x, [m, n], lambda i, j: A(i, j) + 1)
@s("copy_shape", "mn")
def _(S, m, n): keep(S, "A", m, n); ren(S, "B", "A", [n, m])
@s("deep", "mn")
def _(S, m, n):
    A = S.A("A", m, n); keep(S, "A", m, n); S.out("B", [m, n], lambda i, j: A(i, j) + 1); S.out("C", [m, n], lambda i, j: A(i, j) * 2); const(S, "D", [m, n], 0); S.out("E", [m, n], lambda i, j: A(i, j) - 3)
@s("deep_src", "mn")
def _(S, m, n): const(S, "A", [m, n], 0); S.out("B", [m, n], S.A("A", m, n))
for h in ("deep_into", "deep_into_same"):
    @s(h, "mn")
    def _(S, m, n): A = S.A("A", m, n); keep(S, "A", m, n); S.out("B", [m, n], lambda i, j: A(i, j) * 2)
@s("assign_keeps", "mnp")
def _(S, m, n, p):
    A = S.A("A", m, n)
    for x in "AB": S.out(x, [m, n], lambda i, j: A(i, j) + 1)
    S.out("C", [p], S.A("B", p))
@s("self_assign", "mn")
def _(S, m, n): keep(S, "A", m, n)
@s("move", "mn")
def _(S, m, n): S.out("B", [m, n], S.A("A", m, n))
@s("chain_copy", "mn")
def _(S, m, n): keep(S, "A", m, n); const(S, "B", [m, n], 1)
@s("index", "mni")
def _(S, m, n, i):
    F = S.flat("A"); S.val("v", F(i)); S.val("w", S.x("s")); S.out("A", [m, n], lambda r, c: S.ite(S.eq(r * n + c, i), S.x("s"), F(r * n + c)))
@s("begin", "mn")
def _(S, m, n):
    F = S.flat("A")
    for v in ("f", "rl", "cf", "crl"): S.val(v, F(0))
    for v in ("l", "rf", "crf"): S.val(v, F(m * n - 1))
@s("walk", "mn")
def _(S, m, n): A = S.A("A", m, n); S.val("s", S.sum(m * n, S.flat("A"))); S.out("A", [m, n], lambda i, j: 2 * A(i, j))
@s("rwalk", "n")
def _(S, n): A = S.A("A", n); S.out("B", [n], lambda i: A(n - 1 - i)); keep(S, "A", n)
@s("reshape", "lmn")
def _(S, l, m, n): ren(S, "A", "A", [n, l * m]); Q(S, [n, l * m])
@s("reshape_auto", "lmn")
def _(S, l, m, n): ren(S, "A", "A", [m, l * n]); ren(S, "B", "B", [n, l, m])
@s("reshape_up", "mn")
def _(S, m, n): ren(S, "A", "A", [m, 1, n, 1])
@s("reshape_free", "mn")
def _(S, m, n): keep(S, "A", m, n); ren(S, "B", "A", [n, m])
@s("resize_same", "mn")
def _(S, m, n): ren(S, "A", "A", [n, m, 1])
@s("resize_any", "p")
def _(S, p): const(S, "A", [p, p], 1); Q(S, [p, p])
@s("resize_none", "mn")
def _(S, m, n): const(S, "A", [m, n], 2); Q(S, [m, n])
@s("reset", "mn")
def _(S, m, n): const(S, "A", [m, n], S.x("s")); S.out("B", [m, n], S.A("A", m, n)); const(S, "C", [m, n], 0)
@s("map", "lmn")
def _(S, l, m, n):
    A = S.A("A", l, m, n); B = S.A("B", m, n); S.out("A", [l, m, n], lambda *i: A(*i) * A(*i) + 1); S.out("B", [m, n], lambda *i: -B(*i))
@s("as_type", "mn")
def _(S, m, n): A = S.A("A", m, n); keep(S, "A", m, n); S.out("B", [m, n], lambda i, j: A(i, j) + 1)
@s("squeeze", "lmn")
def _(S, l, m, n): keep(S, "A", 1, l, 1, m, n, 1); ren(S, "B", "A", [l, m, n])
@s("squeeze1", "")
def _(S): keep(S, "A", 1, 1); ren(S, "B", "A", [1])
for a in (0, 1, 2):
    @s("squeeze_ax%d" % a, "mn")
    def _(S, m, n, a=a): d = [m, n]; keep(S, "A", *(d[:a] + [1] + d[a:])); ren(S, "B", "A", d)
@s("repeat1", "nr")
def _(S, n, r): A = S.A("A", n); keep(S, "A", n); S.out("B", [r, n], lambda i, j: A(j))
@s("repeat2", "mnr")
def _(S, m, n, r): A = S.A("A", m, n); keep(S, "A", m, n); S.out("B", [r, m, n], lambda t, i, j: A(i, j))
@s("repmat", "mnrc")
def _(S, m, n, r, c): A = S.A("A", m, n); keep(S, "A", m, n); S.out("B", [m * r, n * c], lambda i, j: A(S.mod(i, m), S.mod(j, n)))
@s("clip", "mn")
def _(S, m, n):
    A = S.A("A", m, n); a, b = S.x("s"), S.x("t"); S.out("A", [m, n], lambda i, j: S.ite(S.lt(A(i, j), a), a, S.ite(S.lt(b, A(i, j)), b, A(i, j))))
def cat(h, names, ax, drop=0):
    @s("cat_" + h, names + "pq")
    def _(S, *dd):
        d = list(dd[:-2]); p, q = dd[-2:]; at = lambda v: d[:ax] + [v] + d[ax:]
        A = S.A("A", *at(p)); B = S.A("B", *at(q)[drop:]); keep(S, "A", *at(p)); keep(S, "B", *at(q)[drop:])
        S.out("C", at(p + q), lambda *i: S.ite(S.lt(i[ax], p), A(*i), B(*[x - p if k == ax else x for k, x in enumerate(i)][drop:])))
cat("10", "", 0); cat("20", "n", 0); cat("21", "n", 1); cat("2d", "n", 1); cat("30", "mn", 0); cat("31", "mn", 1); cat("32", "mn", 2); cat("41", "lmn", 1); cat("43", "lmn", 3)
cat("rank", "n", 1, 1); cat("rank3", "mn", 2, 2); cat("rank32", "mn", 2, 1)
@s("cat_self", "mn")
def _(S, m, n): A = S.A("A", m, n); keep(S, "A", m, n); S.out("C", [m + m, n], lambda i, j: S.ite(S.lt(i, m), A(i, j), A(i - m, j)))
def fl(h, names, ax):
    @s("flip_" + h, names)
    def _(S, *d): A = S.A("A", *d); keep(S, "A", *d); S.out("C", list(d), lambda *i: A(*[d[ax] - 1 - x if k == ax else x for k, x in enumerate(i)]))
fl("10", "n", 0); fl("1d", "n", 0); fl("20", "mn", 0); fl("21", "mn", 1); fl("2d", "mn", 1); fl("30", "lmn", 0); fl("31", "lmn", 1); fl("3d", "lmn", 2)
for a, h in enumerate(("40", "41", "42", "4d")): fl(h, "klmn", a)
fl("into", "mn", 0)
@s("flip_twice", "lmn")
def _(S, l, m, n): keep(S, "A", l, m, n); S.out("C", [l, m, n], S.A("A", l, m, n))
