from spec import spec
NATIVE = 10
def one(h, f, ga, gb):
    """real-valued results: f(a,b), derivatives ga(a,b), gb(a,b)"""
    @spec("vf_" + h)
    def _(S):
        m, n = S.dims("m", "n"); A = S.A("A", m, n); B = S.A("B", m, n); G = S.A("G", m, n); d = [m, n]
        S.out("Y", d, lambda i, j: f(S, A(i, j), B(i, j))); S.out("GA", d, lambda i, j: G(i, j) * ga(S, A(i, j), B(i, j))); S.out("GB", d, lambda i, j: G(i, j) * gb(S, A(i, j), B(i, j)))
        S.out("A", d, A); S.out("B", d, B)
q = lambda a, b: a * a + b * b
for h in ("abs", "again"): one(h, lambda S, a, b: S.fn("sqrt", q(a, b)), lambda S, a, b: a / S.fn("sqrt", q(a, b)), lambda S, a, b: b / S.fn("sqrt", q(a, b)))
for h in ("norm", "norm_conj"): one(h, lambda S, a, b: q(a, b), lambda S, a, b: 2 * a, lambda S, a, b: 2 * b)
one("arg", lambda S, a, b: S.fn("atan2", b, a), lambda S, a, b: -b / q(a, b), lambda S, a, b: a / q(a, b))
def cell(h, f, bwd, names="AB"):
    """complex results cell by cell: f(S, *operands) -> (re, im); bwd(S, g, h, *operands) -> gradient of every operand"""
    @spec("vf_" + h)
    def _(S):
        m, n = S.dims("m", "n"); X = [S.A(x, m, n) for x in names]; G = S.A("G", m, n); H = S.A("H", m, n); d = [m, n]; at = lambda i, j: [x(i, j) for x in X]
        S.out("R", d, lambda i, j: f(S, *at(i, j))[0]); S.out("I", d, lambda i, j: f(S, *at(i, j))[1])
        for k, x in enumerate(names):
            S.out("G" + x, d, lambda i, j: bwd(S, G(i, j), H(i, j), *at(i, j))[k])
            if x in "AB": S.out(x, d, X[k])
cell("parts", lambda S, a, b: (a, b), lambda S, g, h, a, b: (g, h)); cell("plus", lambda S, a, b: (a, b), lambda S, g, h, a, b: (g, h))
cell("neg", lambda S, a, b: (-a, -b), lambda S, g, h, a, b: (-g, -h)); cell("conj", lambda S, a, b: (a, -b), lambda S, g, h, a, b: (g, -h))
cell("polar", lambda S, a, b: (a * S.fn("cos", b), a * S.fn("sin", b)), lambda S, g, h, a, b: (g * S.fn("cos", b) + h * S.fn("sin", b), h * a * S.fn("cos", b) - g * a * S.fn("sin", b)))
cell("add", lambda S, a, b, c, d: (a + c, b + d), lambda S, g, h, a, b, c, d: (g, h, g, h), "ABCD"); cell("sub", lambda S, a, b, c, d: (a - c, b - d), lambda S, g, h, a, b, c, d: (g, h, -g, -h), "ABCD")
for x in ("add_e", "e_add"): cell(x, lambda S, a, b, c: (a + c, b), lambda S, g, h, a, b, c: (g, h, g), "ABC")
cell("sub_e", lambda S, a, b, c: (a - c, b), lambda S, g, h, a, b, c: (g, h, -g), "ABC"); cell("e_sub", lambda S, a, b, c: (c - a, -b), lambda S, g, h, a, b, c: (-g, -h, g), "ABC")
@spec("vf_abs_of_sum")
def _(S):
    m, n = S.dims("m", "n"); A, B, C, D, G = [S.A(x, m, n) for x in "ABCDG"]; d = [m, n]; re = lambda i, j: A(i, j) + C(i, j); im = lambda i, j: B(i, j) + D(i, j)
    S.out("Y", d, lambda i, j: q(re(i, j), im(i, j)))
    for x, f in (("GA", re), ("GC", re), ("GB", im), ("GD", im)): S.out(x, d, lambda i, j: 2 * G(i, j) * f(i, j))
def mm(S, X, Y, k): return lambda i, j: S.sum(k, lambda t: X(i, t) * Y(t, j))
def mmt(S, X, Y, n): return lambda i, t: S.sum(n, lambda j: X(i, j) * Y(t, j))      # X * Y'
def mtm(S, X, Y, m): return lambda t, j: S.sum(m, lambda i: X(i, t) * Y(i, j))      # X' * Y
def add(*fs): return lambda i, j: sum((f(i, j) for f in fs[1:]), fs[0](i, j))
def neg(f): return lambda i, j: -f(i, j)
@spec("vf_mul")
def _(S):
    m, k, n = S.dims("m", "k", "n"); A, B = S.A("A", m, k), S.A("B", m, k); C, D = S.A("C", k, n), S.A("D", k, n); G, H = S.A("G", m, n), S.A("H", m, n)
    S.out("R", [m, n], add(mm(S, A, C, k), neg(mm(S, B, D, k)))); S.out("I", [m, n], add(mm(S, A, D, k), mm(S, B, C, k)))
    S.out("GA", [m, k], add(mmt(S, G, C, n), mmt(S, H, D, n))); S.out("GB", [m, k], add(mmt(S, H, C, n), neg(mmt(S, G, D, n))))
    S.out("GC", [k, n], add(mtm(S, A, G, m), mtm(S, B, H, m))); S.out("GD", [k, n], add(mtm(S, A, H, m), neg(mtm(S, B, G, m))))
    for x, d in (("A", [m, k]), ("B", [m, k]), ("C", [k, n]), ("D", [k, n])): S.out(x, d, S.A(x, *d))
@spec("vf_mul_e")
def _(S):
    m, k, n = S.dims("m", "k", "n"); A, B = S.A("A", m, k), S.A("B", m, k); C = S.A("C", k, n); G, H = S.A("G", m, n), S.A("H", m, n)
    S.out("R", [m, n], mm(S, A, C, k)); S.out("I", [m, n], mm(S, B, C, k)); S.out("GA", [m, k], mmt(S, G, C, n)); S.out("GB", [m, k], mmt(S, H, C, n)); S.out("GC", [k, n], add(mtm(S, A, G, m), mtm(S, B, H, m)))
@spec("vf_e_mul")
def _(S):
    m, k, n = S.dims("m", "k", "n"); C = S.A("C", m, k); A, B = S.A("A", k, n), S.A("B", k, n); G, H = S.A("G", m, n), S.A("H", m, n)
    S.out("R", [m, n], mm(S, C, A, k)); S.out("I", [m, n], mm(S, C, B, k)); S.out("GA", [k, n], mtm(S, C, G, m)); S.out("GB", [k, n], mtm(S, C, H, m)); S.out("GC", [m, k], add(mmt(S, G, A, n), mmt(S, H, B, n)))
@spec("vf_sq")
def _(S):
    m, = S.dims("m"); A, B, G, H = [S.A(x, m, m) for x in "ABGH"]
    S.out("R", [m, m], add(mm(S, A, A, m), neg(mm(S, B, B, m)))); S.out("I", [m, m], add(mm(S, A, B, m), mm(S, B, A, m)))
    S.out("GA", [m, m], add(mmt(S, G, A, m), mtm(S, A, G, m), mmt(S, H, B, m), mtm(S, B, H, m))); S.out("GB", [m, m], add(neg(mmt(S, G, B, m)), neg(mtm(S, B, G, m)), mmt(S, H, A, m), mtm(S, A, H, m)))
