from fractions import Fraction
from spec import spec
NATIVE = 15
BUDGET = 60
OPTS = {"vf_ids": {"nocontract": ["ceras::generate_uid"]}, "vf_ids_loop": {"nocontract": ["ceras::generate_uid"]}}
def eps(S): return S.q(Fraction(1e-8)) if S.symbolic else 1e-8
def dims(S, r, *vals, names=("s1", "s2", "s3")):
    S.val(r, len(vals))
    for k, v in zip(names, vals): S.val(k, v)
T = ("t1", "t2", "t3")
@spec("vf_ph_shared")
def _(S):
    m, n, p, q = S.dims("m", "n", "p", "q"); S.out("U", [m, n], S.A("A", m, n)); S.out("A", [m, n], S.A("A", m, n)); S.out("V", [p, q, m], S.A("B", p, q, m))
    dims(S, "r", m, n); dims(S, "rr", p, q, m, names=T); pass
@spec("vf_ph_separate")
def _(S):
    m, n, p = S.dims("m", "n", "p"); S.out("U", [m, n], S.A("A", m, n)); S.out("V", [p], S.A("B", p)); pass
@spec("vf_ph_hint")
def _(S):
    m, n = S.dims("m", "n"); dims(S, "r", 1, m, n)
@spec("vf_ph_hint_bound")
def _(S):
    m, n, p = S.dims("m", "n", "p"); dims(S, "r", p, m, n); dims(S, "rr", 2**64 - 1, names=T)
@spec("vf_ph_default")
def _(S): pass; pass
@spec("vf_ph_set_shape")
def _(S):
    m, n = S.dims("m", "n"); dims(S, "r", m, n)
@spec("vf_ph_backward")
def _(S):
    m, n = S.dims("m", "n"); S.out("U", [m, n], S.A("A", m, n)); S.out("G", [m, n], S.A("G", m, n))
@spec("vf_ph_in_expression")
def _(S):
    m, n, k = S.dims("m", "n", "k"); A = S.A("A", m, n); W = S.A("W", n, k); dims(S, "r", 1, k); S.out("Y", [m, k], lambda i, j: S.sum(n, lambda t: A(i, t) * W(t, j)))
def plus(S, a, b, r, n):
    A = S.A(a, r, n); W = S.A(b, n); return lambda i, j: A(i, j) + W(j)
@spec("vf_session_run")
@spec("vf_predict_run")
def _(S):
    m, n, r = S.dims("m", "n", "r"); S.out("Y", [m, n], plus(S, "A", "W", m, n)); S.out("Y2", [m, n], plus(S, "A", "W", m, n)); S.out("Z", [r, n], plus(S, "B", "W", r, n)); S.out("A", [m, n], S.A("A", m, n)); S.out("W", [n], S.A("W", n))
@spec("vf_session_shared_node")
@spec("vf_predict_shared_node")
def _(S):
    n, r = S.dims("n", "r"); h = plus(S, "B", "W", r, n); S.out("Z", [r, n], lambda i, j: 2 * S.fn("exp", h(i, j)))
@spec("vf_session_partial")
@spec("vf_predict_partial")
def _(S):
    n, r = S.dims("n", "r"); h = plus(S, "B", "W", r, n); S.out("Z", [r, n], lambda i, j: h(i, j) * h(i, j)); S.out("Y", [r, n], h)
@spec("vf_predict_after_learning")
def _(S):
    m, n, r = S.dims("m", "n", "r"); h = plus(S, "A", "W", m, n); g = plus(S, "B", "W", r, n); C = S.A("C", n); W = S.A("W", n)
    S.out("Y", [m, n], lambda i, j: 2 * S.fn("exp", h(i, j))); S.out("Z", [r, n], lambda i, j: 2 * S.fn("exp", g(i, j))); S.out("U", [n], lambda j: 2 * S.fn("exp", C(j) + W(j)))
@spec("vf_session_result_kept")
def _(S):
    m, n = S.dims("m", "n"); h = plus(S, "A", "W", m, n); S.out("Y", [m, n], h); S.out("Z", [m, n], h)
@spec("vf_session_variable_changed")
@spec("vf_predict_variable_changed")
def _(S):
    m, n = S.dims("m", "n"); W = S.A("W", m, n); S.out("Y", [m, n], lambda i, j: S.fn("exp", W(i, j)))
@spec("vf_session_leaf")
def _(S):
    m, n = S.dims("m", "n"); W = S.A("W", m, n); S.out("W", [m, n], W); S.out("Z", [m, n], W)
@spec("vf_session_end")
def _(S):
    m, n = S.dims("m", "n"); pass; S.out("U", [m, n], S.A("C", m, n))
@spec("vf_session_remember")
def _(S):
    m, n = S.dims("m", "n"); pass; pass; S.out("W", [m, n], lambda i, j: 5)
@spec("vf_default_session")
@spec("vf_predict_default_session")
def _(S):
    m, n, r = S.dims("m", "n", "r"); W = S.A("W", n); A = S.A("A", m, n); B = S.A("B", r, n); pass
    S.out("Y", [m, n], lambda i, j: A(i, j) * W(j)); S.out("Y2", [m, n], lambda i, j: A(i, j) * W(j)); S.out("Z", [r, n], lambda i, j: B(i, j) * W(j))
@spec("vf_session_tap")
def _(S):
    m, n = S.dims("m", "n"); S.out("Y", [m, n], plus(S, "A", "W", m, n))
# ---- variables
@spec("vf_var_shared")
def _(S):
    m, n = S.dims("m", "n"); G = S.A("G", m, n); pass; pass; S.out("GW", [m, n], G); S.out("GV", [m, n], G); S.out("Y", [m, n], S.A("N", m, n))
@spec("vf_var_new")
def _(S):
    m, n = S.dims("m", "n"); S.out("GW", [m, n], lambda i, j: 0); S.out("W", [m, n], S.A("W", m, n)); dims(S, "r", m, n); pass; S.val("a", S.x("l1")); S.val("b", S.x("l2")); pass
@spec("vf_var_accumulate")
def _(S):
    m, n = S.dims("m", "n"); G = S.A("G", m, n); H = S.A("H", m, n); S.out("GW", [m, n], lambda i, j: G(i, j) + H(i, j)); S.out("G", [m, n], G); S.out("H", [m, n], H); S.out("W", [m, n], S.A("W", m, n))
@spec("vf_var_reset_pass")
def _(S):
    m, n = S.dims("m", "n"); S.out("Z", [m, n], lambda i, j: 0); S.out("GW", [m, n], S.A("G", m, n)); S.out("W", [m, n], S.A("W", m, n))
@spec("vf_var_predict_keeps")
def _(S):
    m, n = S.dims("m", "n"); S.out("Y", [m, n], S.A("W", m, n)); S.out("GW", [m, n], S.A("G", m, n))
@spec("vf_var_many")
def _(S):
    m, n, t = S.dims("m", "n", "t"); G = S.A("G", m, n); S.out("GW", [m, n], lambda i, j: t * G(i, j))
@spec("vf_var_frozen")
def _(S):
    m, n = S.dims("m", "n"); S.out("GW", [m, n], lambda i, j: 0); S.out("W", [m, n], S.A("W", m, n)); pass; pass; S.out("GU", [m, n], S.A("G", m, n))
@spec("vf_var_frozen_new")
def _(S):
    m, n = S.dims("m", "n"); S.out("GW", [m, n], lambda i, j: 0)
def reg(S, W, l1, l2):
    z = lambda l, v: v if l == "full" else v
    def f(i, j):
        w = W(i, j)
        a = S.ite(S.ge(w, 0), l1, 0 - l1)
        return S.ite(S.ge(l1, eps(S)), a, 0) + S.ite(S.ge(l2, eps(S)), 2 * w * l2, 0)
    return f
def regs(name, l1, l2, frame=False, reps=None):
    @spec("vf_" + name)
    def _(S):
        m, n = S.dims("m", "n"); W = S.A("W", m, n); G = S.A("G", m, n); a = S.x("l1") if l1 else S.q(0) if S.symbolic else 0; b = S.x("l2") if l2 else S.q(0) if S.symbolic else 0
        f = reg(S, W, a, b)
        S.out("GW", [m, n], lambda i, j: G(i, j) + f(i, j))
        if frame: S.out("W", [m, n], W); S.out("G", [m, n], G)
        if name == "var_l_set": S.val("a", a); S.val("b", b)
regs("var_l1", 1, 0, True); regs("var_l2", 0, 1, True); regs("var_l12", 1, 1); regs("var_l_set", 1, 1)
@spec("vf_var_l_once")
def _(S):
    m, n = S.dims("m", "n"); W = S.A("W", m, n); G = S.A("G", m, n); H = S.A("H", m, n); f = reg(S, W, S.x("l1"), S.x("l2"))
    S.out("GW", [m, n], lambda i, j: G(i, j) + H(i, j) + f(i, j)); S.out("GV", [m, n], lambda i, j: G(i, j) + f(i, j))
@spec("vf_var_resized")
def _(S):
    p, q = S.dims("p", "q"); S.out("GW", [p, q], S.A("G", p, q)); dims(S, "r", p, q)
@spec("vf_var_reset")
def _(S):
    m, n = S.dims("m", "n"); S.out("GW", [m, n], lambda i, j: 0); S.out("W", [m, n], lambda i, j: 0)
@spec("vf_var_two_uses")
def _(S):
    m, n = S.dims("m", "n"); W = S.A("W", m, n); A = S.A("A", m, n); B = S.A("B", m, n); G = S.A("G", m, n)
    S.out("Y", [m, n], lambda i, j: W(i, j) * (A(i, j) + B(i, j)))
    for o in ("GW", "GV"): S.out(o, [m, n], lambda i, j: G(i, j) * (A(i, j) + B(i, j)))
    S.out("Z", [m, n], lambda i, j: 0)
@spec("vf_var_two_copies_reg")
def _(S):
    m, n = S.dims("m", "n"); W = S.A("W", m, n); A = S.A("A", m, n); B = S.A("B", m, n); G = S.A("G", m, n); l2 = S.x("l2")
    S.out("GW", [m, n], lambda i, j: G(i, j) * (A(i, j) + B(i, j)) + 2 * W(i, j) * l2)
@spec("vf_var_contexts")
def _(S):
    n, = S.dims("n"); pass; pass; S.out("C1", [n], S.A("C", n))
@spec("vf_const")
def _(S):
    m, n = S.dims("m", "n"); A = S.A("A", m, n); pass
    for o in ("Y", "Z", "D"): S.out(o, [m, n], A)
    dims(S, "r", m, n)
@spec("vf_const_expr")
def _(S):
    m, n = S.dims("m", "n"); A = S.A("A", m, n); W = S.A("W", m, n); G = S.A("G", m, n)
    S.out("Y", [m, n], lambda i, j: A(i, j) * W(i, j)); S.out("GW", [m, n], lambda i, j: G(i, j) * A(i, j)); S.out("D", [m, n], A)
@spec("vf_number")
def _(S):
    m, n = S.dims("m", "n"); S.out("Y", [m, n], lambda i, j: S.x("v")); S.out("R", [m, n], S.A("R", m, n)); S.val("d", S.x("v")); pass
@spec("vf_ids")
def _(S): pass; pass
@spec("vf_ids_loop")
def _(S): pass
