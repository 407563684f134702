from spec import spec
def prod(S, ta, tb, keep=True):
    m, k, n = S.dims("m", "k", "n")
    A = S.A("A", k, m) if ta else S.A("A", m, k); B = S.A("B", n, k) if tb else S.A("B", k, n)
    S.out("C", [m, n], lambda i, j: S.sum(k, lambda t: (A(t, i) if ta else A(i, t)) * (B(j, t) if tb else B(t, j))))
    if keep:
        S.out("A", [k, m] if ta else [m, k], A); S.out("B", [n, k] if tb else [k, n], B)
@spec("vf_mul22", "vf_star", "vf_mulinto", "vf_gemmview", "vf_expr_value", "vf_cpu_nn", "vf_gemm_nn")
def _(S): prod(S, 0, 0)
@spec("vf_cpu_nt", "vf_gemm_nt")
def _(S): prod(S, 0, 1)
@spec("vf_cpu_tn", "vf_gemm_tn")
def _(S): prod(S, 1, 0)
@spec("vf_cpu_tt", "vf_gemm_tt")
def _(S): prod(S, 1, 1)
@spec("vf_gemmf_nn")
def _(S): prod(S, 0, 0, False)
@spec("vf_gemmf_nt")
def _(S): prod(S, 0, 1, False)
@spec("vf_gemmf_tn")
def _(S): prod(S, 1, 0, False)
@spec("vf_gemmf_tt")
def _(S): prod(S, 1, 1, False)
@spec("vf_mul12")
def _(S):
    k, n = S.dims("k", "n"); A = S.A("A", k); B = S.A("B", k, n)
    S.out("C", [1, n], lambda i, j: S.sum(k, lambda t: A(t) * B(t, j))); S.out("A", [k], A); S.out("B", [k, n], B)
@spec("vf_mul21")
def _(S):
    m, k = S.dims("m", "k"); A = S.A("A", m, k); B = S.A("B", k)
    S.out("C", [m, 1], lambda i, j: S.sum(k, lambda t: A(i, t) * B(t))); S.out("A", [m, k], A); S.out("B", [k], B)
@spec("vf_mul11")
def _(S):
    k, = S.dims("k"); A = S.A("A", k); B = S.A("B", k)
    S.out("C", [1, 1], lambda i, j: S.sum(k, lambda t: A(t) * B(t))); S.out("A", [k], A); S.out("B", [k], B)
@spec("vf_mulsquare")
def _(S):
    m, = S.dims("m"); A = S.A("A", m, m)
    S.out("C", [m, m], lambda i, j: S.sum(m, lambda t: A(i, t) * A(t, j))); S.out("A", [m, m], A)
@spec("vf_expr_grad")
def _(S):
    m, k, n = S.dims("m", "k", "n"); A = S.A("A", m, k); B = S.A("B", k, n); G = S.A("G", m, n)
    S.out("GA", [m, k], lambda i, t: S.sum(n, lambda j: G(i, j) * B(t, j)))
    S.out("GB", [k, n], lambda t, j: S.sum(m, lambda i: A(i, t) * G(i, j)))
    S.out("G", [m, n], G); S.out("A", [m, k], A); S.out("B", [k, n], B)
@spec("vf_expr_again")
def _(S):
    m, k, n = S.dims("m", "k", "n"); A = S.A("A", m, k); B = S.A("B", k, n); G = S.A("G", m, n)
    S.out("C", [m, n], lambda i, j: S.sum(k, lambda t: A(i, t) * B(t, j)))
    S.out("GB", [k, n], lambda t, j: S.sum(m, lambda i: A(i, t) * G(i, j)))
@spec("vf_assoc_shape")
def _(S):
    m, n = S.dims("m", "n"); S.val("rank", 2); S.val("rows", m); S.val("cols", n)
@spec("vf_expr_again2")
@spec("vf_expr_again3")
def _(S):
    m, k, n = S.dims("m", "k", "n"); A = S.A("A", m, k); B = S.A("B", k, n); G = S.A("G", m, n)
    S.out("C", [m, n], lambda i, j: S.sum(k, lambda t: A(i, t) * B(t, j)))
    S.out("GA", [m, k], lambda i, t: S.sum(n, lambda j: G(i, j) * B(t, j)))
    S.out("GB", [k, n], lambda t, j: S.sum(m, lambda i: A(i, t) * G(i, j)))
