from spec import spec
NATIVE = 15
EPS = 1e-8
def keepA(S, *d): S.out("A", [S.d(x) for x in d], S.A("A", *[S.d(x) for x in d]))
@spec("vf_sum")
def _(S):
    m, n = S.dims("m", "n"); S.val("v", S.sum(m * n, S.flat("A"))); keepA(S, "m", "n")
@spec("vf_mean")
def _(S):
    m, n = S.dims("m", "n"); S.val("v", S.sum(m * n, S.flat("A")) / (m * n)); keepA(S, "m", "n")
@spec("vf_max")
def _(S):
    m, n = S.dims("m", "n"); v = S.max(m * n, S.flat("A")); S.val("v", v); S.val("w", v); keepA(S, "m", "n")
@spec("vf_min")
def _(S):
    m, n = S.dims("m", "n"); v = S.min(m * n, S.flat("A")); S.val("v", v); S.val("w", v); keepA(S, "m", "n")
@spec("vf_rsum")
def _(S):
    m, n = S.dims("m", "n"); S.out("C", [1], lambda i: S.sum(m * n, S.flat("A"))); keepA(S, "m", "n")
@spec("vf_rmean")
def _(S):
    m, n = S.dims("m", "n"); S.out("C", [1], lambda i: S.sum(m * n, S.flat("A")) / (m * n)); keepA(S, "m", "n")
def r_sum(S, n, f): return S.sum(n, f)
def r_mean(S, n, f): return S.sum(n, f) / n
def r_var(S, n, f):
    mu = S.sum(n, f) / n
    return S.sum(n, lambda t: (f(t) - mu) * (f(t) - mu)) / n
def r_std(S, n, f): return S.fn("sqrt", r_var(S, n, f))
def r_max(S, n, f): return S.max(n, f)
def r_min(S, n, f): return S.min(n, f)
for nm, r in [("asum", r_sum), ("amean", r_mean), ("avar", r_var), ("astd", r_std), ("amax", r_max), ("amin", r_min)]:
    def ax(h, dims, axis, keep, r=r):
        @spec(h)
        def _(S):
            d = [S.d(x) for x in dims]; A = S.A("A", *d)
            od = [x for k, x in enumerate(d) if k != axis]
            if keep: od = [1 if k == axis else x for k, x in enumerate(d)]
            def f(*ix):
                rest = [x for k, x in enumerate(ix) if k != axis] if keep else list(ix)
                return r(S, d[axis], lambda t: A(*(rest[:axis] + [t] + rest[axis:])))
            S.out("C", od, f); keepA(S, *dims)
    ax("vf_%s_1" % nm, "n", 0, True)
    for a in (0, 1): ax("vf_%s_2%d" % (nm, a), "mn", a, False); ax("vf_%s_2%dk" % (nm, a), "mn", a, True)
    for a in (0, 1, 2): ax("vf_%s_3%d" % (nm, a), "lmn", a, False)
    ax("vf_%s_31k" % nm, "lmn", 1, True)
def sm(S, n, f, j):
    M = S.max(n, f)
    return S.fn("exp", f(j) - M) / (S.sum(n, lambda t: S.fn("exp", f(t) - M)) + EPS)
@spec("vf_softmax1")
def _(S):
    n, = S.dims("n"); A = S.A("A", n); S.out("C", [n], lambda j: sm(S, n, A, j)); keepA(S, "n")
@spec("vf_softmax2")
@spec("vf_softmax_far")
def _(S):
    m, n = S.dims("m", "n"); A = S.A("A", m, n); S.out("C", [m, n], lambda i, j: sm(S, n, lambda t: A(i, t), j)); keepA(S, "m", "n")
@spec("vf_softmax3")
def _(S):
    l, m, n = S.dims("l", "m", "n"); A = S.A("A", l, m, n); S.out("C", [l, m, n], lambda k, i, j: sm(S, n, lambda t: A(k, i, t), j)); keepA(S, "l", "m", "n")
@spec("vf_reduce_prod")
def _(S):
    l, m, n = S.dims("l", "m", "n"); A = S.A("A", l, m, n); S.out("C", [l, n], lambda i, j: S.x("s") + S.sum(m, lambda t: A(i, t, j))); keepA(S, "l", "m", "n")
