from spec import spec
NATIVE = 10
LN2, LN10, TSP = 0.69314718055994530942, 2.30258509299404568402, 1.12837916709551257389
EPS = 1e-8
def reg(h, f, d):
    @spec(h)
    def _(S):
        m, n, p = S.dims("m", "n", "p"); X1 = S.A("X1", p); G1 = S.A("G1", p); X = S.A("X", m, n); G = S.A("G", m, n)
        S.out("Y1", [p], lambda i: f(S, X1(i))); S.out("GX1", [p], lambda i: G1(i) * d(S, X1(i))); S.out("X1", [p], X1); S.out("G1", [p], G1)
        S.out("Y", [m, n], lambda i, j: f(S, X(i, j))); S.out("GX", [m, n], lambda i, j: G(i, j) * d(S, X(i, j))); S.out("X", [m, n], X); S.out("G", [m, n], G)
        S.val("rank", 2); S.val("s0", m); S.val("s1", n)
F = lambda nm: (lambda S, x: S.fn(nm, x))
one = lambda S, x: 1
def sgn(S, x): return S.ite(S.lt(0, x), 1, S.ite(S.lt(x, 0), -1, 0))
R = lambda S, x: S.fn("sqrt", x)
for h, f, d in [
    ("abs", F("abs"), sgn), ("fabs", F("abs"), sgn),
    ("acos", F("acos"), lambda S, x: -1 / R(S, 1 - x * x)), ("asin", F("asin"), lambda S, x: 1 / R(S, 1 - x * x)),
    ("acosh", F("acosh"), lambda S, x: 1 / R(S, x * x - 1)), ("asinh", F("asinh"), lambda S, x: 1 / R(S, x * x + 1)),
    ("atan", F("atan"), lambda S, x: 1 / (1 + x * x)), ("atanh", F("atanh"), lambda S, x: 1 / (1 - x * x)),
    ("cbrt", F("cbrt"), lambda S, x: 1 / (3 * S.fn("cbrt", x) * S.fn("cbrt", x))),
    ("cos", F("cos"), lambda S, x: -S.fn("sin", x)), ("sin", F("sin"), F("cos")), ("cosh", F("cosh"), F("sinh")), ("sinh", F("sinh"), F("cosh")),
    ("erf", F("erf"), lambda S, x: TSP * S.fn("exp", -x * x)), ("erfc", lambda S, x: 1 - S.fn("erf", x), lambda S, x: -TSP * S.fn("exp", -x * x)),
    ("exp", F("exp"), F("exp")), ("exp2", lambda S, x: S.fn("pow", 2, x), lambda S, x: S.fn("log", 2) * S.fn("pow", 2, x)),
    ("expm1", lambda S, x: S.fn("exp", x) - 1, F("exp")),
    ("log", F("log"), lambda S, x: 1 / x), ("log10", lambda S, x: S.fn("log", x) / S.fn("log", 10), lambda S, x: 1 / (LN10 * x)),
    ("log1p", lambda S, x: S.fn("log", 1 + x), lambda S, x: 1 / (1 + x)), ("log2", lambda S, x: S.fn("log", x) / S.fn("log", 2), lambda S, x: 1 / (LN2 * x)),
    ("sqrt", F("sqrt"), lambda S, x: 1 / (2 * R(S, x))), ("tan", F("tan"), lambda S, x: 1 + S.fn("tan", x) * S.fn("tan", x)),
    ("tanh", F("tanh"), lambda S, x: 1 - S.fn("tanh", x) * S.fn("tanh", x)),
    ("negative", lambda S, x: -x, lambda S, x: -1), ("neg_op", lambda S, x: -x, lambda S, x: -1), ("plus_op", lambda S, x: -x, lambda S, x: -1),
    ("square", lambda S, x: x * x, lambda S, x: 2 * x), 
    ("add_s", lambda S, x: x + S.x("s"), one), ("s_add", lambda S, x: x + S.x("s"), one), ("sub_s", lambda S, x: x - S.x("s"), one), ("s_sub", lambda S, x: S.x("s") - x, lambda S, x: -1),
    ("mul_s", lambda S, x: x * S.x("s"), lambda S, x: S.x("s")), ("s_mul", lambda S, x: x * S.x("s"), lambda S, x: S.x("s")), ("div_s", lambda S, x: x / S.x("s"), lambda S, x: 1 / S.x("s")),
    ("clip", lambda S, x: S.ite(S.lt(x, S.x("lo")), S.x("lo"), S.ite(S.lt(S.x("hi"), x), S.x("hi"), x)), lambda S, x: S.ite(S.lt(x, S.x("lo")), 0, S.ite(S.lt(S.x("hi"), x), 0, 1))),
    ("pow", lambda S, x: S.fn("pow", x, S.x("s")), lambda S, x: S.x("s") * S.fn("pow", x, S.x("s") - 1)),
    ("inverse", lambda S, x: S.ite(S.lt(0, x), 1 / S.ite(S.lt(EPS, x), x, EPS), 1 / S.ite(S.lt(x, -EPS), x, -EPS)), lambda S, x: -1 / S.ite(S.lt(EPS, x * x), x * x, EPS)),
]: reg("vf_" + h, f, d)
# rounding operators pass the upstream gradient through
for h in ("ceil", "floor", "llrint", "llround", "lrint", "lround", "nearbyint", "rint", "round", "trunc"): reg("vf_" + h, F(h), one)
reg("vf_sign", sgn, lambda S, x: 0)
# numbers of an integral type
for h, f, d in [("iadd", lambda S, x: x + 3, one), ("sadd_i", lambda S, x: x + 3, one), ("isub", lambda S, x: x - 3, one), ("ssub_i", lambda S, x: 3 - x, lambda S, x: -1),
    ("imul", lambda S, x: x * 3, lambda S, x: 3), ("smul_i", lambda S, x: x * 3, lambda S, x: 3), ("idiv", lambda S, x: x * S.q(1, 4), lambda S, x: S.q(1, 4)), ("uldiv", lambda S, x: x * S.q(1, 4), lambda S, x: S.q(1, 4))]: reg("vf_" + h, f, d)
