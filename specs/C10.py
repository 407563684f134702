from spec import spec
NATIVE = 10
def reg(h, f, d, where=None, two=True):
    @spec(h)
    def _(S):
        m, n = S.dims("m", "n")
        for sfx, dd in ([("1", S.dims("p"))] if two else []) + [("", [m, n])]:
            X = S.A("X" + sfx, *dd); G = S.A("G" + sfx, *dd)
            S.out("Y" + sfx, dd, lambda *i: f(S, X(*i))); S.out("GX" + sfx, dd, lambda *i: G(*i) * d(S, X(*i)), where=(lambda *i: where(S, X(*i))) if where else None)
            S.out("X" + sfx, dd, X); S.out("G" + sfx, dd, G)
        if two: S.val("rank", 2); S.val("s0", m); S.val("s1", n)
pos = lambda S, x: S.lt(0, x)
E = lambda S, x: S.fn("exp", x)
sg = lambda S, x: 1 / (1 + E(S, -x))
dsg = lambda S, x: sg(S, x) * (1 - sg(S, x))
th = lambda S, x: S.fn("tanh", x)
nz = lambda *ks: (lambda S, x: S.conj(*[S.neg(S.eq(x, k)) for k in ks]) if len(ks) > 1 else S.neg(S.eq(x, ks[0])))
A = lambda S: S.x("a")
C = 0.79788456080286535588
gu = lambda x: C * x * (1 + 0.044715 * x * x)
reg("vf_relu", lambda S, x: S.ite(pos(S, x), x, 0), lambda S, x: S.ite(pos(S, x), 1, 0), nz(0))
reg("vf_negative_relu", lambda S, x: S.ite(pos(S, x), -x, 0), lambda S, x: S.ite(pos(S, x), -1, 0), nz(0))
reg("vf_relu6", lambda S, x: S.ite(pos(S, x), S.ite(S.lt(x, 6), x, 6), 0), lambda S, x: S.ite(pos(S, x), S.ite(S.lt(x, 6), 1, 0), 0), nz(0, 6))
reg("vf_hard_sigmoid", lambda S, x: S.ite(S.lt(x, -1), 0, S.ite(S.lt(1, x), 1, (x + 1) / 2)), lambda S, x: S.ite(S.lt(x, -1), 0, S.ite(S.lt(1, x), 0, S.q(1, 2))), nz(-1, 1))
reg("vf_sigmoid", sg, dsg)
reg("vf_softplus", lambda S, x: S.fn("log", 1 + E(S, x)), lambda S, x: 1 / (1 + E(S, -x)))
reg("vf_softsign", lambda S, x: x / (1 + S.fn("abs", x)), lambda S, x: 1 / ((1 + S.fn("abs", x)) * (1 + S.fn("abs", x))))
L, AL = (lambda S: S.q(1.0507)), (lambda S: S.q(1.67326))
reg("vf_selu", lambda S, x: S.ite(S.lt(x, 0), L(S) * AL(S) * (E(S, x) - 1), L(S) * x), lambda S, x: S.ite(S.lt(x, 0), L(S) * AL(S) * E(S, x), L(S)), nz(0))
reg("vf_exponential", E, E)
reg("vf_gaussian", lambda S, x: E(S, -x * x), lambda S, x: -2 * x * E(S, -x * x))
reg("vf_gelu", lambda S, x: 0.5 * x * (1 + th(S, gu(x))), lambda S, x: 0.5 * (1 + th(S, gu(x))) + 0.5 * C * x * (1 - th(S, gu(x)) * th(S, gu(x))) * (1 + 0.134145 * x * x))
reg("vf_leaky_relu", lambda S, x: S.ite(pos(S, x), x, A(S) * x), lambda S, x: S.ite(pos(S, x), 1, A(S)), nz(0)); reg("vf_prelu", lambda S, x: S.ite(pos(S, x), x, A(S) * x), lambda S, x: S.ite(pos(S, x), 1, A(S)), nz(0))
reg("vf_elu", lambda S, x: S.ite(pos(S, x), x, A(S) * (E(S, x) - 1)), lambda S, x: S.ite(pos(S, x), 1, A(S) * E(S, x)), nz(0))
step = lambda k: (lambda S, x: sg(S, 2 * k(S) * x), lambda S, x: 2 * k(S) * dsg(S, 2 * k(S) * x))
for h in ("soft_sign", "unit_step", "binary_step"): reg("vf_" + h, *step(lambda S: 20))
reg("vf_heaviside", *step(A))
for h in ("swish", "silu"): reg("vf_" + h, lambda S, x: x * sg(S, x), lambda S, x: sg(S, x) + x * dsg(S, x), two=False)
reg("vf_tank_shrink", lambda S, x: x - th(S, x), lambda S, x: th(S, x) * th(S, x), two=False)
reg("vf_lisht", lambda S, x: x * th(S, x), lambda S, x: th(S, x) + x * (1 - th(S, x) * th(S, x)), two=False)
sp = lambda S, x: S.fn("log", 1 + E(S, x))
reg("vf_mish", lambda S, x: x * th(S, sp(S, x)), lambda S, x: th(S, sp(S, x)) + x * (1 - th(S, sp(S, x)) * th(S, sp(S, x))) / (1 + E(S, -x)), two=False)
def sm(S, n, f, j):
    M = S.max(n, f)
    return S.fn("exp", f(j) - M) / S.sum(n, lambda t: S.fn("exp", f(t) - M))
def smx(h, names):
    @spec(h)
    def _(S):
        for sfx, nm in names:
            d = S.dims(*nm); n = d[-1]; X = S.A("X" + sfx, *d); G = S.A("G" + sfx, *d)
            row = lambda F, i: (lambda t: F(*i[:-1], t))
            S.out("Y" + sfx, d, lambda *i: sm(S, n, row(X, i), i[-1]))
            S.out("GX" + sfx, d, lambda *i: sm(S, n, row(X, i), i[-1]) * (G(*i) - S.sum(n, lambda t: G(*i[:-1], t) * sm(S, n, row(X, i), t))))
            S.out("X" + sfx, d, X); S.out("G" + sfx, d, G)
        if h == "vf_softmax": S.val("rank", 2); S.val("s0", d[0]); S.val("s1", d[1])
smx("vf_softmax", [("1", "p"), ("", "mn")]); smx("vf_softmax3", [("", "lmn")])
@spec("vf_crelu")
def _(S):
    m, n = S.dims("m", "n"); X = S.A("X", m, n); G = S.A("G", m, 2 * n)
    S.out("Y", [m, 2 * n], lambda i, j: S.ite(S.lt(j, n), S.ite(pos(S, X(i, j)), X(i, j), 0), S.ite(pos(S, -X(i, j - n)), -X(i, j - n), 0)))
    S.out("GX", [m, n], lambda i, j: S.ite(pos(S, X(i, j)), G(i, j), -G(i, j + n)), where=lambda i, j: S.neg(S.eq(X(i, j), 0)))
    S.out("X", [m, n], X)
