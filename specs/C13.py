from spec import spec
NATIVE = 15
def E(S, x): return S.fn("exp", x)
def pw(h, f, d, b=None):
    """point-wise: value f(x), derivative d(x); with a second operand: value f(x,y), derivatives d(x,y), b(x,y)"""
    @spec("vf_" + h)
    def _(S):
        m, n = S.dims("m", "n"); A = S.A("A", m, n); G = S.A("G", m, n)
        if b is None: S.out("Y", [m, n], lambda i, j: f(S, A(i, j))); S.out("GA", [m, n], lambda i, j: G(i, j) * d(S, A(i, j)))
        else:
            B = S.A("B", m, n); S.out("B", [m, n], B)
            S.out("Y", [m, n], lambda i, j: f(S, A(i, j), B(i, j))); S.out("GA", [m, n], lambda i, j: G(i, j) * d(S, A(i, j), B(i, j)))
            if b: S.out("GB", [m, n], lambda i, j: G(i, j) * b(S, A(i, j), B(i, j)))
        S.out("A", [m, n], A); S.out("G", [m, n], G)
pw("twice_plus", lambda S, x: 2 * x, lambda S, x: 2)
pw("twice_minus", lambda S, x: x * x - x, lambda S, x: 2 * x - 1)
pw("twice_prod", lambda S, x: x * x, lambda S, x: 2 * x)
pw("thrice", lambda S, x: x * x * x, lambda S, x: 3 * x * x)
pw("shared_plus", lambda S, x: 2 * E(S, x), lambda S, x: 2 * E(S, x))
pw("shared_prod", lambda S, x: E(S, x) * E(S, x), lambda S, x: 2 * E(S, x) * E(S, x))
for h in ("shared_skip", "shared_skip2"): pw(h, lambda S, x: S.fn("sin", E(S, x)) + E(S, x), lambda S, x: (S.fn("cos", E(S, x)) + 1) * E(S, x))
pw("shared_bin", lambda S, x, y: x * y * x * y, lambda S, x, y: 2 * x * y * y, lambda S, x, y: 2 * x * x * y)
def sd(S, x): e = E(S, x); s = S.fn("sin", e); return (s + e) * s
def sdd(S, x): e = E(S, x); s = S.fn("sin", e); c = S.fn("cos", e); return ((c + 1) * s + (s + e) * c) * e
pw("shared_deep", sd, sdd)
pw("chain", lambda S, x: E(S, S.fn("sin", x * x)), lambda S, x: E(S, S.fn("sin", x * x)) * S.fn("cos", x * x) * 2 * x)
pw("frozen", lambda S, x, y: x * y, lambda S, x, y: y, lambda S, x, y: 0)
pw("freeze_later", lambda S, x, y: x * y, lambda S, x, y: y, lambda S, x, y: 0)
pw("unfreeze", lambda S, x, y: x * y, lambda S, x, y: y, lambda S, x, y: x)
pw("const", lambda S, x, y: x * y, lambda S, x, y: y, False)
pw("ph", lambda S, x, y: x * y, lambda S, x, y: y, False)
pw("reset", lambda S, x: x * x + x, lambda S, x: 2 * x + 1)
pw("session", lambda S, x: 2 * x * x, lambda S, x: 4 * x)
pw("copy", lambda S, x: x * x, lambda S, x: 2 * x)
def mat(h, X, dX):
    @spec("vf_" + h)
    def _(S):
        m, = S.dims("m"); A = S.A("A", m, m); G = S.A("G", m, m)
        S.out("Y", [m, m], lambda i, j: S.sum(m, lambda t: X(S, A(i, t)) * X(S, A(t, j))))
        S.out("GA", [m, m], lambda i, j: dX(S, A(i, j)) * (S.sum(m, lambda t: G(i, t) * X(S, A(j, t))) + S.sum(m, lambda t: X(S, A(t, i)) * G(t, j))))
        S.out("A", [m, m], A); S.out("G", [m, m], G)
mat("twice_mat", lambda S, x: x, lambda S, x: 1); mat("shared_mat", E, E)
@spec("vf_shared_row")
def _(S):
    m, n = S.dims("m", "n"); A = S.A("A", m, n); B = S.A("B", 1, n); G = S.A("G", m, n)
    S.out("Y", [m, n], lambda i, j: (A(i, j) + B(0, j)) * B(0, j)); S.out("GA", [m, n], lambda i, j: G(i, j) * B(0, j))
    S.out("GB", [1, n], lambda z, j: S.sum(m, lambda i: G(i, j) * (A(i, j) + 2 * B(0, j)))); S.out("A", [m, n], A); S.out("B", [1, n], B); S.out("G", [m, n], G)
@spec("vf_chain_mat")
def _(S):
    m, k, l, n = S.dims("m", "k", "l", "n"); A = S.A("A", m, k); B = S.A("B", k, l); C = S.A("C", l, n); G = S.A("G", m, n)
    S.out("Y", [m, n], lambda i, j: S.sum(l, lambda t: S.sum(k, lambda u: A(i, u) * B(u, t)) * C(t, j)))
    S.out("GA", [m, k], lambda i, u: S.sum(l, lambda t: S.sum(n, lambda j: G(i, j) * C(t, j)) * B(u, t)))
    S.out("GB", [k, l], lambda u, t: S.sum(m, lambda i: A(i, u) * S.sum(n, lambda j: G(i, j) * C(t, j))))
    S.out("GC", [l, n], lambda t, j: S.sum(m, lambda i: S.sum(k, lambda u: A(i, u) * B(u, t)) * G(i, j)))
    S.out("A", [m, k], A); S.out("G", [m, n], G)
def aff(S, act=None, grad=None):
    m, k, n = S.dims("m", "k", "n"); A = S.A("A", m, k); W = S.A("W", k, n); B = S.A("B", 1, n); G = S.A("G", m, n)
    z = lambda i, j: S.sum(k, lambda u: A(i, u) * W(u, j)) + B(0, j)
    y = (lambda i, j: act(z(i, j))) if act else z
    d = (lambda i, j: G(i, j) * grad(z(i, j))) if grad else G
    S.out("Y", [m, n], y); S.out("GW", [k, n], lambda u, j: S.sum(m, lambda i: A(i, u) * d(i, j))); S.out("GB", [1, n], lambda z_, j: S.sum(m, lambda i: d(i, j)))
    S.out("W", [k, n], W); S.out("B", [1, n], B); S.out("G", [m, n], G); S.out("A", [m, k], A)
    if not act: S.out("GA", [m, k], lambda i, u: S.sum(n, lambda j: G(i, j) * W(u, j)))
@spec("vf_affine")
def _(S): aff(S)
@spec("vf_affine_tanh")
def _(S): aff(S, lambda z: S.fn("tanh", z), lambda z: 1 - S.fn("tanh", z) * S.fn("tanh", z))
@spec("vf_loss")
def _(S):
    m, k, n = S.dims("m", "k", "n"); A = S.A("A", m, k); W = S.A("W", k, n); G = S.A("G", 1)
    z = lambda i, j: S.sum(k, lambda u: A(i, u) * W(u, j))
    S.out("Y", [1], lambda o: S.sum(m * n, lambda f: z(S.div(f, n), S.mod(f, n)) * z(S.div(f, n), S.mod(f, n))))
    S.out("GA", [m, k], lambda i, u: S.sum(n, lambda j: 2 * G(0) * z(i, j) * W(u, j))); S.out("GW", [k, n], lambda u, j: S.sum(m, lambda i: A(i, u) * 2 * G(0) * z(i, j))); S.out("G", [1], G)
@spec("vf_acc")
def _(S):
    m, n = S.dims("m", "n"); A = S.A("A", m, n); G = S.A("G", m, n); H = S.A("H", m, n)
    S.out("GA", [m, n], lambda i, j: 2 * A(i, j) * (G(i, j) + H(i, j))); S.out("A", [m, n], A); S.out("G", [m, n], G); S.out("H", [m, n], H)
@spec("vf_two_exprs")
def _(S):
    m, n = S.dims("m", "n"); A = S.A("A", m, n); G = S.A("G", m, n); H = S.A("H", m, n)
    S.out("GA", [m, n], lambda i, j: 2 * A(i, j) * G(i, j) + E(S, A(i, j)) * H(i, j)); S.out("G", [m, n], G); S.out("H", [m, n], H)
@spec("vf_two_exprs_shared")
def _(S):
    m, n = S.dims("m", "n"); A = S.A("A", m, n); G = S.A("G", m, n); H = S.A("H", m, n)
    S.out("GA", [m, n], lambda i, j: E(S, A(i, j)) * (2 * E(S, A(i, j)) * G(i, j) + S.fn("cos", E(S, A(i, j))) * H(i, j)))
@spec("vf_frozen_l2")
def _(S):
    m, n = S.dims("m", "n"); B = S.A("B", m, n); S.out("GB", [m, n], lambda i, j: 0); S.out("B", [m, n], B)
def reg(h, p, q):
    @spec("vf_reg_" + h)
    def _(S):
        m, n = S.dims("m", "n")
        r = lambda x: (S.x("p") * S.ite(S.lt(x, 0), -1, 1) if p else 0) + (2 * S.x("q") * x if q else 0)
        for nm, up, ob in (("A", "G", "GA"), ("A2", "H", "HA")):
            A = S.A(nm, m, n); G = S.A(up, m, n)
            S.out(ob, [m, n], lambda i, j, A=A, G=G: 2 * G(i, j) + r(A(i, j))); S.out(nm, [m, n], A)
reg("l1", 1, 0); reg("l2", 0, 1); reg("l12", 1, 1); reg("none", 0, 0)
@spec("vf_reg_later")
def _(S):
    m, n = S.dims("m", "n"); A = S.A("A", m, n); G = S.A("G", m, n)
    S.out("GA", [m, n], lambda i, j: 2 * A(i, j) * (G(i, j) + S.x("q"))); S.out("A", [m, n], A)
