from spec import spec
NATIVE = 8
EPS = 1e-8
class Sgd:
    def __init__(s, S, mu=0, dc=0, nest=False): s.S = S; s.lr = S.x("lr") / S.d("bs"); s.mu = mu; s.dc = dc; s.nest = nest
    def rule(s):
        """one step: returns f(data, gradient, state) -> (data, state), with the state starting at zero"""
        def start(t):
            if t: s.lr = s.lr / (1 + s.dc * t)
        def f(d, g, st):
            m = st[0] * s.mu - s.lr * g
            return (d + (s.mu * m - s.lr * g if s.nest else m), [m])
        return start, f, 1
class Gd:
    def __init__(s, S): s.lr = S.x("lr") / S.d("bs")
    def rule(s): return (lambda t: None), (lambda d, g, st: (d - s.lr * g, [])), 0
class Adagrad(Sgd):
    def rule(s):
        def start(t):
            if t: s.lr = s.lr / (1 + s.dc * t)
        def f(d, g, st): m = st[0] + g * g; return d - s.lr * g / (EPS + s.S.fn("sqrt", m)), [m]
        return start, f, 1
class Rms(Sgd):
    def __init__(s, S, rho, dc=0): Sgd.__init__(s, S, 0, dc); s.rho = rho
    def rule(s):
        s.t = 0
        def start(t):
            s.t = t
            if t: s.lr = s.lr / (1 + s.dc * t)
        def f(d, g, st):
            m = g * g if s.t == 0 else st[0] * s.rho + g * g * (1 - s.rho)
            return d - s.lr * g / (EPS + s.S.fn("sqrt", m)), [m]
        return start, f, 1
class Adadelta:
    def __init__(s, S, rho): s.S = S; s.rho = rho; s.lr = S.q(1) / S.d("bs")
    def rule(s):
        def f(d, g, st):
            m = st[0] * s.rho + g * g * (1 - s.rho); u = g * (s.lr * s.S.fn("sqrt", (st[1] + EPS) / (m + EPS)))
            return d - u, [m, st[1] * s.rho + (1 - s.rho) * u * u]
        return (lambda t: None), f, 2
class Adam:
    """as implemented: plain gradient steps in the first two iterations, bias-corrected moments from then on"""
    def __init__(s, S, b1, b2): s.S = S; s.b1 = b1; s.b2 = b2; s.lr = S.x("lr") / S.d("bs")
    def rule(s):
        s.t = 0
        def start(t): s.t = t
        def f(d, g, st):
            m = st[0] * s.b1 + g * (1 - s.b1); v = st[1] * s.b2 + g * g * (1 - s.b2); t = s.t + 1
            if s.t <= 1: return d - s.lr * g, [m, v]
            p1 = p2 = 1
            for _ in range(t): p1 = p1 * s.b1; p2 = p2 * s.b2
            lr = s.lr * s.S.fn("sqrt", 1 - p2) / (1 - p1)
            return d - lr * m / (EPS + s.S.fn("sqrt", v)), [m, v]
        return start, f, 2
MK = {"sgd": lambda S: Sgd(S), "gd": lambda S: Gd(S), "sgd_mom": lambda S: Sgd(S, S.x("mu")), "sgd_neg": lambda S: Sgd(S), "sgd_decay": lambda S: Sgd(S, S.x("mu"), S.x("dc")),
      "sgd_nest": lambda S: Sgd(S, S.x("mu"), 0, True), "adagrad": lambda S: Adagrad(S), "adagrad_decay": lambda S: Adagrad(S, 0, S.x("dc")), "rmsprop": lambda S: Rms(S, S.x("rho")),
      "rmsprop_decay": lambda S: Rms(S, S.x("rho"), S.x("dc")), "adadelta": lambda S: Adadelta(S, S.x("rho")), "adam": lambda S: Adam(S, S.x("b1"), S.x("b2"))}
def trace(mk, S, k, data, grads):
    """data after step k, by the update rule, for one cell"""
    start, f, n = mk(S).rule(); d = data; st = [0] * n
    for t in range(k):
        start(t); d, st = f(d, grads[t], st)
    return d
def steps(h, mk, K=4):
    @spec("vf_" + h)
    def _(S):
        m, n = S.dims("m", "n"); A = S.A("A", m, n); G = [S.A("G%d" % k, m, n) for k in range(1, K + 1)]
        for k in range(1, K + 1):
            S.out("A%d" % k, [m, n], lambda i, j: trace(mk, S, k, A(i, j), [g(i, j) for g in G])); S.out("Z%d" % k, [m, n], lambda i, j: 0)
for h, mk in MK.items(): steps(h, mk)
for h in ("sgd", "adagrad", "rmsprop", "adadelta", "adam"): steps("mk_" + h, MK[h])
for h in ("gd", "sgd", "adagrad", "rmsprop", "adadelta", "adam"):
    @spec("vf_two_" + h)
    def _(S, mk=MK["sgd_mom" if h == "sgd" else h]):
        m, n = S.dims("m", "n"); A = S.A("A", m, n); B = S.A("B", n); G = [S.A("G%d" % k, m, n) for k in (1, 2, 3)]; H = [S.A("H%d" % k, n) for k in (1, 2, 3)]
        for k in (1, 2, 3):
            S.out("A%d" % k, [m, n], lambda i, j: trace(mk, S, k, A(i, j), [2 * g(i, j) for g in G])); S.out("Z%d" % k, [m, n], lambda i, j: 0)
            S.out("B%d" % k, [n], lambda j: trace(mk, S, k, B(j), [g(j) for g in H])); S.out("Y%d" % k, [n], lambda j: 0)
        S.out("C", [m, n], S.A("C", m, n)); S.out("GC", [m, n], lambda i, j: 0); S.out("U", [m], S.A("U", m))
def freeze(h, mom):
    @spec(h)
    def _(S):
        m, n = S.dims("m", "n"); A = S.A("A", m, n); G1 = S.A("G1", m, n); G3 = S.A("G3", m, n); lr = S.x("lr") / S.d("bs"); c = 1 + S.x("mu") if mom else 1
        for x in ("A1", "A2"): S.out(x, [m, n], lambda i, j: A(i, j) - lr * G1(i, j))
        S.out("A3", [m, n], lambda i, j: A(i, j) - lr * c * G1(i, j) - lr * G3(i, j))
        for x in ("Z1", "Z2", "Z3"): S.out(x, [m, n], lambda i, j: 0)
freeze("vf_freeze_gd", False); freeze("vf_freeze_sgd", True)
@spec("vf_input_kept")
def _(S):
    m, n = S.dims("m", "n"); A = S.A("A", m, n); G = S.A("G", m, n); lr = S.x("lr") / S.d("bs"); S.out("G", [m, n], G); S.out("A2", [m, n], lambda i, j: A(i, j) - 2 * lr * G(i, j))
@spec("vf_fit_affine")
def _(S):
    m, k, n = S.dims("m", "k", "n"); X = S.A("X", m, k); Y = S.A("Y", m, n); W = S.A("W", k, n); lr = S.x("lr") / S.d("bs")
    r = lambda i, j: S.sum(k, lambda t: X(i, t) * W(t, j)) - Y(i, j)
    S.out("L", [1], lambda z: S.sum(m, lambda i: S.sum(n, lambda j: r(i, j) * r(i, j)))); S.out("W1", [k, n], lambda t, j: W(t, j) - lr * S.sum(m, lambda i: 2 * X(i, t) * r(i, j)))
