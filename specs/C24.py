from fractions import Fraction
from spec import spec
NATIVE = 15
BUDGET = 200
TOL = 2e-3
eps = lambda S: S.q(Fraction(1e-8)) if S.symbolic else 1e-8
def shp(S, r, *vals, names=("s1", "s2", "s3", "s4")):
    S.val(r, len(vals))
    for k, v in zip(names, vals): S.val(k, v)
WN = ("w1", "w2", "w3", "w4")
REG = ("k1", "k2", "b1", "b2")
def regs(S):
    for r in REG: S.val(r, S.x(r))
def dense(S, A, W, B, n): return lambda i, j: S.sum(n, lambda t: A(i, t) * W(t, j)) + B(0, j)
@spec("vf_dense")
def _(S):
    b, i, o = S.dims("b", "i", "o"); shp(S, "r", 1, o); shp(S, "rw", i, o, names=WN); S.out("B0", [1, o], lambda x, y: 0)
    S.out("Y", [b, o], dense(S, S.A("A", b, i), S.A("W", i, o), S.A("B", 1, o), i))
def glorot(S, name, dims):
    S.shape_of(name, dims); W = S.got(name, *dims); h = S.fn("sqrt", S.q(6) / (dims[0] + dims[1]))
    S.allhold("initial values within the glorot interval", dims, lambda *x: S.conj(S.le(-h if S.symbolic else -h * 1.000001, W(*x)), S.le(W(*x), h if S.symbolic else h * 1.000001)))
@spec("vf_dense_init")
def _(S):
    i, o = S.dims("i", "o"); glorot(S, "W0", [i, o]); S.out("B0", [1, o], lambda x, y: 0)
@spec("vf_dense_grad")
def _(S):
    b, i, o = S.dims("b", "i", "o"); A = S.A("A", b, i); W = S.A("W", i, o); G = S.A("G", b, o)
    S.out("GX", [b, i], lambda r, c: S.sum(o, lambda t: G(r, t) * W(c, t))); S.out("GW", [i, o], lambda r, c: S.sum(b, lambda t: A(t, r) * G(t, c))); S.out("GB", [1, o], lambda z, c: S.sum(b, lambda t: G(t, c)))
@spec("vf_dense_no_bias")
def _(S):
    b, i, o = S.dims("b", "i", "o"); A = S.A("A", b, i); W = S.A("W", i, o); G = S.A("G", b, o)
    S.out("Y", [b, o], lambda r, c: S.sum(i, lambda t: A(r, t) * W(t, c))); S.out("GW", [i, o], lambda r, c: S.sum(b, lambda t: A(t, r) * G(t, c)))
    S.out("GB", [1, o], lambda z, c: 0); S.out("B0", [1, o], lambda z, c: 0)
@spec("vf_dense_reg")
def _(S): regs(S)
@spec("vf_dense_two")
def _(S):
    b, i, h, o = S.dims("b", "i", "h", "o"); shp(S, "r", 1, o); z = dense(S, S.A("A", b, i), S.A("W", i, h), S.A("B", 1, h), i); S.out("Y", [b, o], dense(S, z, S.A("V", h, o), S.A("C", 1, o), h))
@spec("vf_dense_separate")
def _(S):
    b, i, o = S.dims("b", "i", "o"); S.out("Y", [b, o], lambda r, c: 0); S.out("Z", [b, o], dense(S, S.A("A", b, i), S.A("W", i, o), S.A("B", 1, o), i))
# ---- convolution
def convshape(h, f):
    @spec("vf_" + h)
    def _(S):
        o, c = S.dims("o", "c"); shp(S, "r", *f(S, o, c), names=WN); S.out("B0", [1, 1, o], lambda x, y, z: 0)
for h in ("conv_shape", "conv_old_shape", "convt_shape"): convshape(h, lambda S, o, c: (o, *S.dims("p", "q"), c))
convshape("conv_square", lambda S, o, c: (o, *S.dims("p", "p"), c))
for h in ("conv_reg", "convt_reg", "conv1d_reg"):
    @spec("vf_" + h)
    def _(S): regs(S)
def conv(h, geo):
    @spec("vf_" + h)
    def _(S):
        b, hh, ww, c, o = S.dims("b", "h", "w", "c", "o"); ih, iw, p, q, sr, sc, dr, dc, pr, pc = geo(S, hh, ww)
        A = S.A("A", b, ih, iw, c); W = S.A("W", o, p, q, c); B = S.A("B", 1, 1, o)
        def get(n, i, j, r, t, k):
            y, x = i * sr + r * dr - pr, j * sc + t * dc - pc
            if pr == 0 and pc == 0: return A(n, y, x, k)
            if not S.symbolic and not (0 <= y < ih and 0 <= x < iw): return 0
            return S.ite(S.conj(S.ge(y, 0), S.lt(y, ih), S.ge(x, 0), S.lt(x, iw)), A(n, y, x, k), 0)
        S.out("Y", [b, hh, ww, o], lambda n, i, j, z: S.sum(p, lambda r: S.sum(q, lambda t: S.sum(c, lambda k: W(z, r, t, k) * get(n, i, j, r, t, k)))) + B(0, 0, z))
for h in ("conv", "conv_old"): conv(h, lambda S, h, w: (lambda p, q: (h + p - 1, w + q - 1, p, q, 1, 1, 1, 1, 0, 0))(*S.dims("p", "q")))
for h in ("conv_stride", "conv_old_stride"): conv(h, lambda S, h, w: (lambda p, q, s, t: ((h - 1) * s + p, (w - 1) * t + q, p, q, s, t, 1, 1, 0, 0))(*S.dims("p", "q", "s", "t")))
conv("conv_dilation", lambda S, h, w: (lambda p, q, s, t: (h + (p - 1) * s, w + (q - 1) * t, p, q, 1, 1, s, t, 0, 0))(*S.dims("p", "q", "s", "t")))
conv("conv_same", lambda S, h, w: (h, w, 3, 3, 1, 1, 1, 1, 1, 1))
@spec("vf_conv_grad")
def _(S):
    b, h, w, o = S.dims("b", "h", "w", "o"); G = S.A("G", b, h, w, o); S.out("GB", [1, 1, o], lambda x, y, z: S.sum(b, lambda n: S.sum(h, lambda i: S.sum(w, lambda j: G(n, i, j, z)))))
def conv1d(h, geo):
    @spec("vf_" + h)
    def _(S):
        b, w, c, o, p = S.dims("b", "w", "c", "o", "p"); n, s = geo(S, w, p); A = S.A("A", b, n, c); W = S.A("W", o, p, 1, c); B = S.A("B", 1, 1, o)
        S.out("Y", [b, w, o], lambda x, i, z: S.sum(p, lambda r: S.sum(c, lambda k: W(z, r, 0, k) * A(x, i * s + r, k))) + B(0, 0, z))
conv1d("conv1d", lambda S, w, p: (w + p - 1, 1)); conv1d("conv1d_stride", lambda S, w, p: ((w - 1) * S.dims("s")[0] + p, S.dims("s")[0]))
@spec("vf_convt_value")
def _(S): pass
# ---- batch normalization
@spec("vf_bn_init")
def _(S):
    j, = S.dims("j"); S.out("GM", [j], lambda x: 1); S.out("BT", [j], lambda x: 0); regs(S)
def stats(S, A, r):
    mu = lambda j: S.sum(r, lambda i: A(i, j)) / r
    return mu, lambda j: S.sum(r, lambda i: (A(i, j) - mu(j)) * (A(i, j) - mu(j))) / r
norm = lambda S, A, mu, var: lambda i, j: (A(i, j) - mu(j)) / S.fn("sqrt", var(j) + eps(S))
@spec("vf_bn")
def _(S):
    r, c = S.dims("r", "c"); A = S.A("A", r, c); z = norm(S, A, *stats(S, A, r)); M = S.A("GM", c); B = S.A("BT", c)
    S.out("Y", [r, c], lambda i, j: z(i, j) * M(j) + B(j), where=None if S.symbolic else (lambda i, j: stats(S, A, r)[1](j) > 1e-3))
@spec("vf_bn_momentum")
def _(S):
    r, c, s = S.dims("r", "c", "s"); p = S.x("p"); A = S.A("A", s, c); m1, v1 = stats(S, S.A("A1", r, c), r); m2, v2 = stats(S, S.A("A2", r, c), r)
    mu = lambda j: m1(j) * (1 - p) * p + m2(j) * (1 - p); var = lambda j: v1(j) * (1 - p) * p + v2(j) * (1 - p)
    S.out("Y", [s, c], norm(S, A, mu, var), where=None if S.symbolic else (lambda i, j: var(j) > 1e-3))
# ---- merging layers
def two(h, f, da, db):
    @spec("vf_" + h)
    def _(S):
        d = S.dims("m", "n"); A, B, G = (S.A(x, *d) for x in "ABG"); shp(S, "r", *d)
        S.out("Y", d, lambda *i: f(A(*i), B(*i))); S.out("GA", d, lambda *i: G(*i) * da(A(*i), B(*i))); S.out("GB", d, lambda *i: G(*i) * db(A(*i), B(*i)))
two("add", lambda a, b: a + b, lambda a, b: 1, lambda a, b: 1); two("subtract", lambda a, b: a - b, lambda a, b: 1, lambda a, b: -1); two("multiply", lambda a, b: a * b, lambda a, b: b, lambda a, b: a)
@spec("vf_concatenate")
def _(S):
    l, m, n, k = S.dims("l", "m", "n", "k"); A = S.A("A", l, m, n); B = S.A("B", l, m, k); G = S.A("G", l, m, n + k); shp(S, "r", l, m, n + k)
    S.out("Y", [l, m, n + k], lambda x, i, j: S.ite(S.lt(j, n), A(x, i, j), B(x, i, j - n)) if S.symbolic else (A(x, i, j) if j < n else B(x, i, j - n)))
    S.out("GA", [l, m, n], lambda x, i, j: G(x, i, j)); S.out("GB", [l, m, k], lambda x, i, j: G(x, i, j + n))
@spec("vf_concatenate_0")
def _(S):
    m, n, k = S.dims("m", "n", "k"); A = S.A("A", m, n); B = S.A("B", k, n); shp(S, "r", m + k, n)
    S.out("Y", [m + k, n], lambda i, j: S.ite(S.lt(i, m), A(i, j), B(i - m, j)) if S.symbolic else (A(i, j) if i < m else B(i - m, j)))
@spec("vf_concatenate_1")
def _(S):
    m, n, k = S.dims("m", "n", "k"); A = S.A("A", m, n); B = S.A("B", m, k); shp(S, "r", m, n + k)
    S.out("Y", [m, n + k], lambda i, j: S.ite(S.lt(j, n), A(i, j), B(i, j - n)) if S.symbolic else (A(i, j) if j < n else B(i, j - n)))
# ---- activation layers
def act(h, f, df, nz=True):
    @spec("vf_" + h)
    def _(S):
        d = S.dims("m", "n"); A = S.A("A", *d); G = S.A("G", *d)
        S.out("Y", d, lambda *i: f(S, A(*i))); S.out("GA", d, lambda *i: G(*i) * df(S, A(*i)), where=lambda *i: S.neg(S.eq(A(*i), 0)))
E = lambda S, x: S.fn("exp", x)
pos = lambda S, x: S.gt(x, 0)
dflt = lambda S: S.q(Fraction(0.2)) if S.symbolic else 0.2
act("relu", lambda S, x: S.ite(pos(S, x), x, 0), lambda S, x: S.ite(pos(S, x), 1, 0))
for h, f in (("leaky", lambda S: S.x("f")), ("leaky_default", None)):
    f = f or (lambda S: S.q(Fraction(0.2)))
    act(h, lambda S, x, f=f: S.ite(pos(S, x), x, f(S) * x), lambda S, x, f=f: S.ite(pos(S, x), 1, f(S)))
for h, f in (("elu", lambda S: S.x("f")), ("elu_default", None)):
    f = f or (lambda S: S.q(Fraction(0.2)))
    act(h, lambda S, x, f=f: S.ite(pos(S, x), x, f(S) * (E(S, x) - 1)), lambda S, x, f=f: S.ite(pos(S, x), 1, f(S) * E(S, x)))
@spec("vf_softmax")
def _(S):
    m, n = S.dims("m", "n"); A = S.A("A", m, n); mx = lambda i: S.max(n, lambda t: A(i, t)); S.out("Y", [m, n], lambda i, j: E(S, A(i, j) - mx(i)) / S.sum(n, lambda t: E(S, A(i, t) - mx(i))))
# ---- shapes
@spec("vf_flatten")
def _(S):
    b, k, m, n = S.dims("b", "k", "m", "n"); A = S.A("A", b, k * m, n); W = S.A("W", n); shp(S, "r", 1, k * m * n)
    S.shape_of("Y", [b, k * m * n]); Y = S.got("Y", b, k, m, n); A4 = S.A("A", b, k, m, n); G = S.A("G", b, k, m, n)
    S.allhold("elements in order", [b, k, m, n], lambda x, y, i, j: S.eq(Y(x, y, i, j), A4(x, y, i, j) + W(j)) if S.symbolic else S.close(Y(x, y, i, j), A4(x, y, i, j) + W(j)))
    S.out("GW", [n], lambda j: S.sum(b, lambda x: S.sum(k, lambda y: S.sum(m, lambda i: G(x, y, i, j)))))
@spec("vf_reshape")
def _(S):
    b, m, n = S.dims("b", "m", "n"); shp(S, "r", 1, n, m); S.shape_of("Y", [b, n, m]); S.out("Y", [b, n, m], S.A("A", b, n, m))
@spec("vf_reshape_all")
def _(S):
    b, m, n = S.dims("b", "m", "n"); shp(S, "r", m * n, b); S.out("Y", [m * n, b], S.A("A", m * n, b))
def pool(h, f):
    @spec("vf_" + h)
    def _(S):
        b, c, m, n = S.dims("b", "c", "m", "n"); A = S.A("A", b, 2 * m, 2 * n, c); shp(S, "r", b, m, n, c)
        S.out("Y", [b, m, n, c], lambda x, i, j, k: f(S, *[A(x, 2 * i + u, 2 * j + v, k) for u in (0, 1) for v in (0, 1)]))
def mx4(S, *a): return (S.ite(S.ge(a[0], a[1]), S.ite(S.ge(a[2], a[3]), S.ite(S.ge(a[0], a[2]), a[0], a[2]), S.ite(S.ge(a[0], a[3]), a[0], a[3])), S.ite(S.ge(a[2], a[3]), S.ite(S.ge(a[1], a[2]), a[1], a[2]), S.ite(S.ge(a[1], a[3]), a[1], a[3]))))
pool("maxpool", mx4); pool("avgpool", lambda S, *a: (a[0] + a[1] + a[2] + a[3]) / 4)
@spec("vf_upsample")
def _(S):
    b, c, m, n, s = S.dims("b", "c", "m", "n", "s"); A = S.A("A", b, m, n, c); shp(S, "r", b, m * s, n * s, c)
    S.out("Y", [b, m * s, n * s, c], lambda x, i, j, k: A(x, S.div(i, s), S.div(j, s), k))
@spec("vf_dropout")
def _(S):
    m, n = S.dims("m", "n"); f = S.x("f"); A = S.A("A", m, n); S.shape_of("Y", [m, n]); Y = S.got("Y", m, n)
    S.allhold("an element is dropped or scaled by 1/(1-rate)", [m, n], lambda i, j: S.disj(S.eq(Y(i, j), 0), S.eq(Y(i, j) * (1 - f), A(i, j))) if S.symbolic else Y(i, j) == 0 or S.close(Y(i, j) * (1 - f), A(i, j)))
@spec("vf_dropout_predict")
def _(S):
    m, n = S.dims("m", "n"); S.out("Y", [m, n], S.A("A", m, n))
@spec("vf_input")
def _(S):
    m, n = S.dims("m", "n"); shp(S, "r", 1, m, n); S.out("Y", [m, n], S.A("A", m, n))
