from spec import spec
NATIVE = 10
lg = lambda S, x: S.fn("log", x)
ab = lambda S, x: S.fn("abs", x)
clip = lambda S, x: S.ite(S.lt(x, S.q(1e-8)), S.q(1e-8), x)
hi = lambda S, x: S.ite(S.lt(0, x), x, 0)
sgn = lambda S, x: S.ite(S.lt(0, x), 1, -1)
big = lambda S, x: S.lt(S.q(1e-8), x)
le_ = lambda S, x: lg(S, 1 + clip(S, x))
# name: (summed term of truth t and prediction x, mean?, d/dx, d/dt, where)
ne0 = lambda S, x: S.neg(S.eq(x, 0))
T = {
 "mean_squared_logarithmic_error": (lambda S, t, x: (le_(S, t) - le_(S, x)) * (le_(S, t) - le_(S, x)), False,
    lambda S, t, x: -2 * (lg(S, 1 + t) - lg(S, 1 + x)) / (1 + x), lambda S, t, x: 2 * (lg(S, 1 + t) - lg(S, 1 + x)) / (1 + t), lambda S, t, x: S.conj(big(S, t), big(S, x))),
 "squared_loss": (lambda S, t, x: (t - x) * (t - x), False, lambda S, t, x: -2 * (t - x), lambda S, t, x: 2 * (t - x), None),
 "mean_squared_error": (lambda S, t, x: (t - x) * (t - x), True, lambda S, t, x: -2 * (t - x), lambda S, t, x: 2 * (t - x), None),
 "abs_loss": (lambda S, t, x: ab(S, t - x), False, lambda S, t, x: -sgn(S, t - x), lambda S, t, x: sgn(S, t - x), lambda S, t, x: ne0(S, t - x)),
 "mean_absolute_error": (lambda S, t, x: ab(S, t - x), True, lambda S, t, x: -sgn(S, t - x), lambda S, t, x: sgn(S, t - x), lambda S, t, x: ne0(S, t - x)),
 "cross_entropy": (lambda S, t, x: -t * lg(S, x), False, lambda S, t, x: -t / x, lambda S, t, x: -lg(S, x), None),
 "binary_cross_entropy_loss": (lambda S, t, x: -(t * lg(S, x) + (1 - t) * lg(S, 1 - x)), True, lambda S, t, x: -t / x + (1 - t) / (1 - x), lambda S, t, x: None, None),
 "hinge_loss": (lambda S, t, x: hi(S, 1 - t * x), True, lambda S, t, x: S.ite(S.lt(0, 1 - t * x), -t, 0), lambda S, t, x: S.ite(S.lt(0, 1 - t * x), -x, 0), lambda S, t, x: ne0(S, 1 - t * x)),
}
T["mse"] = T["mean_squared_error"]; T["mae"] = T["mean_absolute_error"]
def reg(h, key, names, col=False, truthgrad=True, again=True):
    @spec(h)
    def _(S):
        v, mean, dx, dt, where = T[key]
        m = S.d("m"); d = [m, 1] if col else [m, S.d("n")]; sz = d[0] * d[1]; G = S.A("G", 1)
        Tt, X = S.A("T", *d), S.A("X", *d)
        if again and not col:
            p = S.d("p"); S.out("Y1", [1], lambda i: S.sum(p, lambda k: v(S, S.flat("T1")(k), S.flat("X1")(k))) / (p if mean else 1))
        S.out("Y", [1], lambda i: S.sum(sz, lambda k: v(S, S.flat("T")(k), S.flat("X")(k))) / (sz if mean else 1))
        w = (lambda *i: where(S, Tt(*i), X(*i))) if where else None
        for g, dd in (("GX", dx),) + ((("GT", dt),) if truthgrad else ()):
            if key.startswith("binary") and g == "GT": continue
            D = lambda *i: dd(S, Tt(*i), X(*i))
            if col or not mean: S.out(g, d, lambda *i: G(0) * D(*i) / (m if mean else 1), where=w)
            else:
                # m x n: in proportion to the derivative (its scale: the finding of C12 about mean_reduce)
                O = S.got(g, *d); S.shape_of(g, d)
                w2 = (lambda i, j: S.conj(w(i, j), w(0, 0))) if w else None
                S.every("gradient in proportion to the derivative (%s)" % g, d, lambda i, j: O(i, j) * D(0, 0), lambda i, j: O(0, 0) * D(i, j), where=w2)
        S.out("T", d, Tt); S.out("X", d, X); S.out("G", [1], G)
        if again and not col: S.val("rank", 1); S.val("s0", 1)
for k, (v, mean, dx, dt, w) in list(T.items()):
    reg("vf_" + k, k, "")
    if mean: reg("vf_%s_col" % k, k, "", col=True)
for nm, key in (("MeanSquaredError", "mse"), ("MSE", "mse"), ("MeanAbsoluteError", "mae"), ("MAE", "mae"), ("Hinge", "hinge_loss"), ("BinaryCrossentropy", "binary_cross_entropy_loss"), ("BinaryCrossEntropy", "binary_cross_entropy_loss")):
    reg("vf_f_" + nm, key, "", col=True, truthgrad=False, again=False); reg("vf_f2_" + nm, key, "", truthgrad=False, again=False)
def ce(h, a):
    @spec(h)
    def _(S):
        m, n = S.dims("m", "n"); Tt, X, G = S.A("T", m, n), S.A("X", m, n), S.A("G", 1); s = a(S)
        c0, c1 = s / (n - 1), 1 - s; e = S.q(1e-8)
        def sm(i, j):
            M = S.max(n, lambda t: X(i, t)); return S.fn("exp", X(i, j) - M) / (S.sum(n, lambda t: S.fn("exp", X(i, t) - M)) + e)      # the implementation guards the denominator with eps
        v = lambda i, j: S.ite(S.lt(e, Tt(i, j)), c1, c0)
        mx = lambda y: S.ite(S.lt(e, y), y, e)
        S.out("Y", [1], lambda _: -S.sum(m * n, lambda k: v(S.div(k, n), S.mod(k, n)) * S.fn("log", mx(sm(S.div(k, n), S.mod(k, n))))) / m)
        S.out("GX", [m, n], lambda i, j: G(0) * (sm(i, j) - v(i, j)))
        S.out("T", [m, n], Tt); S.out("X", [m, n], X); S.out("G", [1], G)
ce("vf_ce", lambda S: 0 * S.q(1)); ce("vf_ce_again", lambda S: 0 * S.q(1)); ce("vf_ce_smooth", lambda S: S.x("a"))
for N in ("CategoricalCrossentropy", "CategoricalCrossEntropy"): ce("vf_f_" + N, lambda S: S.x("a")); ce("vf_f0_" + N, lambda S: 0 * S.q(1))
