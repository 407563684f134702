from spec import spec
NATIVE = 15
BUDGET = 40
EPS = 1e-8
def one_of(S, y, a, gy, g, f):
    k = 1 - f
    z = S.conj(S.eq(y, 0), S.eq(gy, 0))
    if S.symbolic: return S.disj(z, S.conj(S.eq(y * k, a), S.eq(gy * k, g)))
    return z or (S.close(y * k, a) and S.close(gy * k, g))
def drop(name, *dn, a="A", ga="GA", y="Y", frame=()):
    @spec("vf_" + name)
    def _(S):
        dims = S.dims(*dn); f = S.x("f"); A = S.A(a, *dims); G = S.A("G", *dims)
        S.shape_of(y, dims); S.shape_of(ga, dims); Y = S.got(y, *dims); GA = S.got(ga, *dims)
        S.allhold("an element is dropped or scaled by 1/(1-rate), and its gradient with it", dims, lambda *i: one_of(S, Y(*i), A(*i), GA(*i), G(*i), f))
        for x in frame: S.out(x, dims, S.A(x, *dims))
drop("drop", "m", "n", frame=("A", "G")); drop("drop_alias", "m", "n"); drop("drop_3d", "k", "m", "n"); drop("drop_predict_train", "m", "n")
@spec("vf_drop_two")
def _(S):
    m, n = S.dims("m", "n"); f = S.x("f"); G = S.A("G", m, n)
    for a, y, ga in (("A", "Y", "GA"), ("B", "Z", "GB")):
        A = S.A(a, m, n); S.shape_of(y, [m, n]); S.shape_of(ga, [m, n]); Y = S.got(y, m, n); GA = S.got(ga, m, n)
        S.allhold("dropped or scaled: " + a, [m, n], lambda i, j: one_of(S, Y(i, j), A(i, j), GA(i, j), G(i, j), f))
@spec("vf_drop_again2")
def _(S):
    m, n = S.dims("m", "n"); f = S.x("f"); A = S.A("A", m, n); S.shape_of("Y", [m, n]); Y = S.got("Y", m, n)
    S.allhold("dropped or scaled", [m, n], lambda i, j: one_of(S, Y(i, j), A(i, j), Y(i, j), A(i, j), f))
@spec("vf_drop_again")
def _(S):
    m, n, r = S.dims("m", "n", "r"); f = S.x("f"); A = S.A("A", m, n); W = S.A("W", 1, n); G = S.A("G", m, n); G1 = S.A("G1", r, n)
    S.shape_of("Y", [m, n]); S.shape_of("GA", [1, n]); Y = S.got("Y", m, n)
    S.allhold("dropped or scaled", [m, n], lambda i, j: one_of(S, Y(i, j), A(i, j) * W(0, j), Y(i, j), A(i, j) * W(0, j), f))
    # the gradient uses the mask of the value: d = sum_i g * x * (kept ? 1/(1-f) : 0)
    S.out("GA", [1, n], lambda z, j: S.sum(m, lambda i: S.ite(S.eq(Y(i, j), 0), 0, G(i, j) * A(i, j) / (1 - f))))
for h in ("drop_predict", "drop_train_predict"):
    @spec("vf_" + h)
    def _(S):
        m, n = S.dims("m", "n"); S.out("Y", [m, n], S.A("A", m, n)); S.out("GA", [m, n], S.A("G", m, n))
def stats(S, A, r):
    mu = lambda j: S.sum(r, lambda i: A(i, j)) / r
    var = lambda j: S.sum(r, lambda i: (A(i, j) - mu(j)) * (A(i, j) - mu(j))) / r
    return mu, var
from fractions import Fraction
def eps(S): return S.q(Fraction(1e-8)) if S.symbolic else 1e-8
def norm(S, A, mu, var): return lambda i, j: (A(i, j) - mu(j)) / S.fn("sqrt", var(j) + eps(S))
def bngrad(S, A, G, r):
    mu, var = stats(S, A, r)
    gm = lambda j: S.sum(r, lambda i: G(i, j)) / r
    gc = lambda j: S.sum(r, lambda i: G(i, j) * (A(i, j) - mu(j))) / r
    return lambda i, j: (G(i, j) - gm(j) - (A(i, j) - mu(j)) * gc(j) / (var(j) + eps(S))) / S.fn("sqrt", var(j) + eps(S))
for h in ("bn", "bn_again", "bn_predict_train"):
    @spec("vf_" + h)
    def _(S, h=h):
        r, c = S.dims("r", "c"); A = S.A("A", r, c); S.out("Y", [r, c], norm(S, A, *stats(S, A, r)))
        if h != "bn_predict_train": S.out("A", [r, c], A)
@spec("vf_bn_grad")
def _(S):
    r, c = S.dims("r", "c"); A = S.A("A", r, c); G = S.A("G", r, c); S.out("GA", [r, c], bngrad(S, A, G, r)); S.out("G", [r, c], G)
@spec("vf_bn_again_grad")
def _(S):
    r, c = S.dims("r", "c"); X = S.A("A", r, c); W = S.A("W", c); G = S.A("G", r, c); g = bngrad(S, lambda i, j: X(i, j) + W(j), G, r); S.out("GW", [c], lambda j: S.sum(r, lambda i: g(i, j)))
# higher ranks: the same over all the rows of the flattened tensor
def flat(S, name, R, c): return S.A(name, R, c)
@spec("vf_bn_3d")
def _(S):
    k, r, c = S.dims("k", "r", "c"); A = S.A("A", k, r, c); mu, var = stats(S, S.A("A", k * r, c), k * r)
    S.out("Y", [k, r, c], lambda a, b, j: (A(a, b, j) - mu(j)) / S.fn("sqrt", var(j) + eps(S)))
@spec("vf_bn_3d_grad")
def _(S):
    k, r, c = S.dims("k", "r", "c"); g = bngrad(S, S.A("A", k * r, c), S.A("G", k * r, c), k * r)
    S.out("GA", [k, r, c], lambda a, b, j: g(a * r + b, j))
@spec("vf_bn_4d")
def _(S):
    h, k, r, c = S.dims("b", "k", "r", "c"); A = S.A("A", h, k, r, c); mu, var = stats(S, S.A("A", h * k * r, c), h * k * r)
    S.out("Y", [h, k, r, c], lambda x, a, b, j: (A(x, a, b, j) - mu(j)) / S.fn("sqrt", var(j) + eps(S)))
@spec("vf_bn_gamma")
def _(S):
    r, c = S.dims("r", "c"); A = S.A("A", r, c); G = S.A("G", r, c); M = S.A("GM", c); B = S.A("BT", c); z = norm(S, A, *stats(S, A, r))
    S.out("Y", [r, c], lambda i, j: z(i, j) * M(j) + B(j)); S.out("GG", [c], lambda j: S.sum(r, lambda i: G(i, j) * z(i, j))); S.out("GB", [c], lambda j: S.sum(r, lambda i: G(i, j)))
@spec("vf_bn_gamma_in")
def _(S):
    r, c = S.dims("r", "c"); A = S.A("A", r, c); G = S.A("G", r, c); M = S.A("GM", c); S.out("GA", [r, c], bngrad(S, A, lambda i, j: G(i, j) * M(j), r))
@spec("vf_bn_untrained")
def _(S):
    r, c = S.dims("r", "c"); S.out("Y", [r, c], S.A("A", r, c))
@spec("vf_bn_predict")
def _(S):
    r, c, s = S.dims("r", "c", "s"); p = S.x("p"); mu, var = stats(S, S.A("A1", r, c), r); A = S.A("A", s, c)
    S.out("Y", [s, c], lambda i, j: (A(i, j) - mu(j) * (1 - p)) / S.fn("sqrt", var(j) * (1 - p) + eps(S)))
@spec("vf_bn_predict2")
def _(S):
    r, c, s, q = S.dims("r", "c", "s", "q"); p = S.x("p"); m1, v1 = stats(S, S.A("A1", r, c), r); m2, v2 = stats(S, S.A("A2", q, c), q); A = S.A("A", s, c)
    mu = lambda j: m1(j) * (1 - p) * p + m2(j) * (1 - p); var = lambda j: v1(j) * (1 - p) * p + v2(j) * (1 - p)
    S.out("Y", [s, c], norm(S, A, mu, var))
@spec("vf_bn_two")
def _(S):
    r, c = S.dims("r", "c"); p = S.x("p"); A = S.A("A", r, c); B = S.A("B", r, c); C = S.A("C", r, c); mu, var = stats(S, A, r)
    S.out("Y", [r, c], norm(S, A, mu, var)); S.out("Z", [r, c], norm(S, B, *stats(S, B, r)))
    S.out("U", [r, c], norm(S, C, lambda j: mu(j) * (1 - p), lambda j: var(j) * (1 - p)))
def inside(name, dn, lo, hi, frame=()):
    @spec("vf_" + name)
    def _(S):
        dims = S.dims(*dn); S.shape_of("Y", dims); Y = S.got("Y", *dims)
        S.allhold("every element lies in the interval", dims, lambda *i: S.conj(S.le(lo(S), Y(*i)), S.le(Y(*i), hi(S))))
        for x in frame: S.out(x, dims, S.A(x, *dims))
L = lambda S: S.x("lo"); H = lambda S: S.x("lo") + S.x("w")
inside("rand", ("m", "n"), L, H); inside("rand_alias", ("m", "n"), L, H); inside("rand_like", ("m", "n"), L, H, ("A",))
inside("rand_default", ("m", "n"), lambda S: 0, lambda S: 1); inside("truncated", ("m", "n"), L, lambda S: S.x("lo") + 1)
def bound(S):
    m, n = S.dims("m", "n"); return S.fn("sqrt", S.q(6) / (m + n))
inside("glorot", ("m", "n"), lambda S: -bound(S), bound); inside("glorot_4d", ("m", "n", "k"), lambda S: -bound(S), bound)
@spec("vf_randn_shape")
def _(S): S.shape_of("Y", S.dims("k", "m", "n"))
@spec("vf_randn_like")
def _(S): d = S.dims("m", "n"); S.shape_of("Y", d); S.out("A", d, S.A("A", *d))
@spec("vf_noise")
def _(S): d = S.dims("m", "n"); S.shape_of("Y", d); S.out("A", d, S.A("A", *d)); S.out("GA", d, lambda i, j: 0)
