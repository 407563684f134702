from spec import spec
MAXDIM = 5
def flat(S, dims, idx):
    r = 0
    for d, i in zip(dims, idx): r = r * d + i
    return r
def upd(S, name, dims, idx, f=lambda v: v + 7, val=None):
    """cell idx of the array becomes f(old), the others keep their value"""
    x = S.flat(name); at = flat(S, dims, idx); n = 1
    for d in dims: n = n * d
    def cell(*ii):
        c = S.eq(ii[0], idx[0])
        for a, b in zip(ii[1:], idx[1:]): c = S.conj(c, S.eq(a, b))
        return S.ite(c, f(x(flat(S, dims, ii))), x(flat(S, dims, ii)))
    S.out(name, dims, cell)
    if val: S.val(val, f(x(at)))
@spec("vf_v1")
def _(S): n, i = S.dims("n", "i"); upd(S, "X", [n], [i], lambda v: 2 * v + 7, "r")
for h in ("av", "view1"):
    @spec("vf_" + h)
    def _(S): n, i = S.dims("n", "i"); upd(S, "X", [n], [i])
@spec("vf_v2")
def _(S):
    n, m, i, j = S.dims("n", "m", "i", "j"); upd(S, "X", [n, m], [i, j], val="r")
    for k, v in (("row", n), ("col", m), ("size", n * m), ("s0", n), ("s1", m)): S.val(k, v)
@spec("vf_v2_tensor")
def _(S): n, m, i, j = S.dims("n", "m", "i", "j"); upd(S, "X", [n, m], [i, j])
@spec("vf_v2_const")
def _(S): n, m, i, j = S.dims("n", "m", "i", "j"); S.val("r", S.A("X", n, m)(i, j)); S.out("X", [n, m], S.A("X", n, m))
@spec("vf_v2_trans")
def _(S): n, m, i, j = S.dims("n", "m", "i", "j"); upd(S, "X", [m, n], [j, i], val="r")
for h in ("v2_mv", "view2"):
    @spec("vf_" + h)
    def _(S): n, m, i, j = S.dims("n", "m", "i", "j"); upd(S, "X", [n, m], [i, j], lambda v: S.q(3, 2))
@spec("vf_v2_row")
def _(S): n, m, i = S.dims("n", "m", "i"); x = S.A("X", n, m); S.out("X", [n, m], lambda a, b: S.ite(S.eq(a, i), 2 * x(a, b) + 1, x(a, b)))
@spec("vf_v2_row_const")
def _(S): n, m, i = S.dims("n", "m", "i"); x = S.A("X", n, m); S.out("Y", [m], lambda b: x(i, b)); S.out("X", [n, m], x)
@spec("vf_v2_col")
def _(S): n, m, j = S.dims("n", "m", "j"); x = S.A("X", n, m); S.out("X", [n, m], lambda a, b: S.ite(S.eq(b, j), 2 * x(a, b) + 1, x(a, b)))
@spec("vf_v2_col_read")
def _(S): n, m, j = S.dims("n", "m", "j"); x = S.A("X", n, m); S.out("Y", [n], lambda a: x(a, j))
@spec("vf_v2_all")
def _(S): n, m = S.dims("n", "m"); x = S.A("X", n, m); S.out("Y", [m, n], lambda a, b: x(b, a))
for h in ("v3", "cv", "view3"):
    @spec("vf_" + h)
    def _(S, h=h): n, m, k, a, b, c = S.dims("n", "m", "k", "a", "b", "c"); upd(S, "X", [n, m, k], [a, b, c], val="r" if h == "v3" else None)
for h in ("v4", "tv", "view4", "view4_shape"):
    @spec("vf_" + h)
    def _(S, h=h): n, m, k, l, a, b, c, d = S.dims("n", "m", "k", "l", "a", "b", "c", "d"); upd(S, "X", [n, m, k, l], [a, b, c, d], val="r" if h == "v4" else None)
@spec("vf_view5")
def _(S): n, m, k, l, o, a, b, c, d, e = S.dims("n", "m", "k", "l", "o", "a", "b", "c", "d", "e"); upd(S, "Y", [o, n, m, k, l], [e, a, b, c, d], val="r")
@spec("vf_view6")
def _(S): n, m, k, l, o, q, a, b, c, d, e, f = S.dims("n", "m", "k", "l", "o", "q", "a", "b", "c", "d", "e", "f"); upd(S, "Y", [q, o, n, m, k, l], [f, e, a, b, c, d])
def si(S, i, f, **vals):
    """the strided cell i becomes f(old); vals: strided cells read afterwards"""
    n, s = S.dims("n", "s"); x = S.A("X", n, s)
    S.out("X", [n, s], lambda a, b: S.ite(S.conj(S.eq(a, i), S.eq(b, 0)), f(x(a, b)), x(a, b)))
    for k, j in vals.items(): S.val(k, S.ite(S.eq(j, i), f(x(j, 0)), x(j, 0)))
@spec("vf_si_plus", "vf_si_index")
def _(S): i, j = S.dims("i", "j"); si(S, i, lambda v: v + 7, b=j)
@spec("vf_si_inc", "vf_si_compare")
def _(S): pass
@spec("vf_si_dec", "vf_si_minus")
def _(S): i, = S.dims("i"); si(S, i, lambda v: S.q(3, 2))
@spec("vf_si_step")
def _(S): j, = S.dims("j"); si(S, j, lambda v: S.q(3, 2))
@spec("vf_range")
def _(S): n, = S.dims("n"); x = S.flat("X"); S.val("k", n + 1); S.out("X", [n + 1], lambda i: S.ite(S.lt(i, n), x(i) + i + 1, x(i)))
@spec("vf_range2")
def _(S): a, n, r = S.dims("a", "n", "r"); x = S.flat("X"); S.val("k", n + 1); S.out("X", [a + n + r + 1], lambda i: S.ite(S.conj(S.le(a, i), S.lt(i, a + n)), x(i) + i - a + 1, x(i)))
@spec("vf_range3")
def _(S):
    a, n, s = S.dims("a", "n", "s"); x = S.flat("X"); S.val("k", n + 1)
    S.out("X", [a + n * s + 1], lambda i: S.ite(S.conj(S.le(a, i), S.lt(i, a + n * s), S.eq(S.mod(S.ite(S.le(a, i), i - a, 0), s), 0)), x(i) + S.div(S.ite(S.le(a, i), i - a, 0), s) + 1, x(i)))
@spec("vf_range4")
def _(S):
    n, = S.dims("n"); x = S.flat("X"); S.val("k", S.div(n + 1, 2) + 1)
    S.out("X", [n], lambda i: S.ite(S.eq(S.mod(i, 2), 0), x(i) + S.div(i, 2) + 1, x(i)))
@spec("vf_range_int")
def _(S): n, = S.dims("n"); x = S.flat("X"); S.out("X", [n + 4], lambda i: S.ite(S.lt(i, n + 3), x(i) + 1, x(i)))
@spec("vf_range_iter")
def _(S):
    n, i = S.dims("n", "i")
    for k, v in (("b", i), ("c", i), ("b1", i + 1), ("e", n), ("cb", 0), ("ce", n), ("d", i), ("d3", i + 3)): S.val(k, v)
@spec("vf_enum")
def _(S): n, = S.dims("n"); x = S.flat("X"); S.out("X", [n], lambda i: 2 * x(i) + i)
@spec("vf_enum_vec")
def _(S): n, = S.dims("n"); S.out("Y", [n], S.flat("X"))
@spec("vf_reverse")
def _(S): n, = S.dims("n"); x = S.flat("X"); S.val("k", n); S.out("Y", [n], lambda i: x(n - 1 - i))
@spec("vf_reverse_write")
def _(S): n, = S.dims("n"); x = S.flat("X"); S.out("X", [n], lambda i: x(i) + n - 1 - i)
