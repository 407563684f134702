from spec import spec
NATIVE = 12
R1, R2, R3 = ("n",), ("m", "n"), ("l", "m", "n")
ops = {  # value, derivative with respect to either operand
 "plus": (lambda S, a, b: a + b, lambda S, a, b: 1, lambda S, a, b: 1),
 "minus": (lambda S, a, b: a - b, lambda S, a, b: 1, lambda S, a, b: -1),
 "prod": (lambda S, a, b: a * b, lambda S, a, b: b, lambda S, a, b: a),
 "div": (lambda S, a, b: a / b, lambda S, a, b: 1 / b, lambda S, a, b: -a / (b * b)),
 "hypot": (lambda S, a, b: S.fn("sqrt", a * a + b * b), lambda S, a, b: a / S.fn("sqrt", a * a + b * b), lambda S, a, b: b / S.fn("sqrt", a * a + b * b)),
 "atan2": (lambda S, a, b: S.fn("atan2", a, b), lambda S, a, b: b / (a * a + b * b), lambda S, a, b: -a / (a * a + b * b)),
}
def ev(S, d): return [x if isinstance(x, int) else S.d(x) for x in d]
def binop(h, op, full, da, db):
    f, fa, fb = ops[op]
    @spec(h)
    def _(S):
        A = S.A("A", *ev(S, da)); B = S.A("B", *ev(S, db)); G = S.A("G", *ev(S, full))
        def al(X, d):
            o = len(full) - len(d)
            return lambda ix: X(*[0 if isinstance(x, int) else ix[o + k] for k, x in enumerate(d)])
        a, b = al(A, da), al(B, db)
        S.out("C", ev(S, full), lambda *ix: f(S, a(ix), b(ix)))
        S.out("A", ev(S, da), A); S.out("B", ev(S, db), B); S.out("G", ev(S, full), G)
        def grad(d, df):
            o = len(full) - len(d)
            def at(*jx):
                # sum over the axes along which the operand was repeated
                def rec(k, ix):
                    if k == len(full): return G(*ix) * df(S, a(ix), b(ix))
                    if k < o or isinstance(d[k - o], int): return S.sum(S.d(full[k]), lambda t: rec(k + 1, ix + [t]))
                    return rec(k + 1, ix + [jx[k - o]])
                return rec(0, [])
            return at
        S.out("GA", ev(S, da), grad(da, fa)); S.out("GB", ev(S, db), grad(db, fb))
SH = [("11", R1, R1, R1), ("22", R2, R2, R2), ("21", R2, R2, R1), ("12", R2, R1, R2), ("32", R3, R3, R2), ("31", R3, R3, R1)]
UN = [("2r", R2, R2, (1, "n")), ("2c", R2, R2, ("m", 1)), ("c2", R2, ("m", 1), R2), ("cr", R2, ("m", 1), (1, "n")), ("3m", R3, R3, ("l", 1, "n"))]
for op in ("plus", "minus", "prod", "div"):
    for s, full, da, db in SH + (UN if op in ("plus", "minus") else []): binop("vf_%s_%s" % (op, s), op, full, da, db)
for h, op in [("plus_f", "plus"), ("minus_f", "minus"), ("prod_m", "prod"), ("prod_h", "prod"), ("div_f", "div"), ("hypot", "hypot")]: binop("vf_" + h, op, R2, R2, R2)
def again(h, f, fa, fb, where=None):
    @spec(h)
    def _(S):
        m, n, p = S.dims("m", "n", "p")
        for sfx, d in (("1", [p]), ("", [m, n])):
            A = S.A("A" + sfx, *d); B = S.A("B" + sfx, *d); G = S.A("G" + sfx, *d)
            w = (lambda *ix: where(S, A(*ix), B(*ix))) if where else None
            S.out("C" + sfx, d, lambda *ix: f(S, A(*ix), B(*ix)))
            S.out("GA" + sfx, d, lambda *ix: G(*ix) * fa(S, A(*ix), B(*ix)), where=w); S.out("GB" + sfx, d, lambda *ix: G(*ix) * fb(S, A(*ix), B(*ix)), where=w)
        if where: S.out("GS", d, G)     # at ties the gradient goes to the two operands together
        S.out("A", d, A); S.out("B", d, B); S.out("G", d, G)
for nm in ("plus", "minus", "prod", "div"): again("vf_again_" + nm, *ops[nm])
again("vf_atan2", *ops["atan2"])
ne = lambda S, a, b: S.neg(S.eq(a, b))
again("vf_maximum", lambda S, a, b: S.ite(S.lt(b, a), a, b), lambda S, a, b: S.ite(S.lt(b, a), 1, 0), lambda S, a, b: S.ite(S.lt(b, a), 0, 1), ne)
again("vf_minimum", lambda S, a, b: S.ite(S.lt(b, a), b, a), lambda S, a, b: S.ite(S.lt(b, a), 0, 1), lambda S, a, b: S.ite(S.lt(b, a), 1, 0), ne)
again("vf_equal", lambda S, a, b: S.ite(S.lt(S.x("t"), S.fn("abs", a - b)), 0, 1), lambda S, a, b: 0, lambda S, a, b: 0)
def va(h, f, df):
    @spec(h)
    def _(S):
        m, n = S.dims("m", "n"); A = S.A("A", m, n); G = S.A("G", m, n); s = S.x("s")
        S.out("C", [m, n], lambda i, j: f(A(i, j), s)); S.out("GA", [m, n], lambda i, j: G(i, j) * df(A(i, j), s)); S.out("A", [m, n], A); S.out("G", [m, n], G)
        S.val("rank", 2); S.val("s0", m); S.val("s1", n)
va("vf_v_add", lambda a, s: a + s, lambda a, s: 1); va("vf_v_add2", lambda a, s: a + s, lambda a, s: 1)
va("vf_v_sub", lambda a, s: a - s, lambda a, s: 1); va("vf_v_sub2", lambda a, s: s - a, lambda a, s: -1)
va("vf_v_mul", lambda a, s: a * s, lambda a, s: s); va("vf_v_mul2", lambda a, s: a * s, lambda a, s: s)
va("vf_v_div2", lambda a, s: s / a, lambda a, s: -s / (a * a)); va("vf_num_div", lambda a, s: s / a, lambda a, s: -s / (a * a))
@spec("vf_shapes")
def _(S):
    l, m, n = S.dims("l", "m", "n")
    for k, v in [("r", 3), ("s0", l), ("s1", m), ("s2", n), ("q", 2), ("t0", m), ("t1", n), ("u", 2), ("u0", m), ("u1", n)]: S.val(k, v)
@spec("vf_assign")
def _(S):
    m, n = S.dims("m", "n"); A = S.A("A", m, n)
    for k in "CAB": S.out(k, [m, n], A)
    for k in ("GA", "GB"): S.out(k, [m, n], lambda i, j: 0)
@spec("vf_like")
def _(S):
    m, n = S.dims("m", "n"); S.out("C", [m, n], lambda i, j: 1); S.out("D", [m, n], lambda i, j: 0); S.out("A", [m, n], S.A("A", m, n)); S.out("G", [m, n], S.A("G", m, n))
    for k in ("GA", "GA2"): S.out(k, [m, n], lambda i, j: 0)
