from spec import spec
NATIVE = 10
BUDGET = 130
MAXDIM = 3
def pool(S, kind, b, oh, ow, c, h, w, s, sfx="", x=None, gx=None, sign=1, y=True):
    x = x or "X"; gx = gx or "G" + x
    X = S.A(x + sfx, b, h, w, c); G = S.A("G" + sfx, b, oh, ow, c); d = [b, h, w, c]; o = [b, oh, ow, c]
    if kind == "avg":
        Y = lambda i, j, k, l: S.sum(s, lambda r: S.sum(s, lambda t: X(i, j * s + r, k * s + t, l))) / (s * s)
        if y: S.out("Y" + sfx, o, Y)
        def gr(i, j, k, l):
            ok = S.conj(S.lt(j, oh * s), S.lt(k, ow * s))
            return S.ite(ok, sign * G(i, S.div(j, s), S.div(k, s), l), 0) / (s * s) if ok is not False else 0
        if S.symbolic: S.out(gx + sfx, d, gr)
        else: S.out(gx + sfx, d, lambda i, j, k, l: sign * G(i, j // s, k // s, l) / (s * s) if j < oh * s and k < ow * s else 0)
        return Y
    Y = lambda i, j, k, l: S.max2(s, s, lambda r, t: X(i, j * s + r, k * s + t, l))
    if y: S.out("Y" + sfx, o, Y)
    # the gradient reaches only cells that attain the maximum of their window, in total the upstream gradient
    S.out(gx + sfx, d, lambda *i: 0, where=lambda i, j, k, l: S.disj(S.ge(j, oh * s), S.ge(k, ow * s)))
    GX = S.got(gx + sfx, *d)
    if isinstance(s, int):
        for r in range(s):
            for t in range(s):
                S.every("gradient only at the maximum", o, lambda i, j, k, l: GX(i, j * s + r, k * s + t, l), lambda *i: 0,
                    where=lambda i, j, k, l: S.disj(*[S.lt(X(i, j * s + r, k * s + t, l), X(i, j * s + u, k * s + v, l)) for u in range(s) for v in range(s) if (u, v) != (r, t)]))
    else:
        S.every("gradient only at the maximum", [b, oh, ow, c, s, s], lambda i, j, k, l, r, t: GX(i, j * s + r, k * s + t, l), lambda *i: 0, where=lambda i, j, k, l, r, t: S.lt(X(i, j * s + r, k * s + t, l), Y(i, j, k, l)))
    S.every("total gradient of a window", o, lambda i, j, k, l: S.sum(s, lambda r: S.sum(s, lambda t: GX(i, j * s + r, k * s + t, l))), lambda *i: sign * G(*i))
    return Y
def keep(S, d, o, x="X"):
    S.out(x, d, S.A(x, *d)); S.out("G", o, S.A("G", *o))
def reg(kind):
    def one(name, geo):
        @spec("vf_%s_%s" % (kind, name))
        def _(S):
            b, oh, ow, c, h, w, s = geo(S)
            pool(S, kind, b, oh, ow, c, h, w, s); keep(S, [b, h, w, c], [b, oh, ow, c])
            S.val("rank", 4)
            for k, x in enumerate([b, oh, ow, c]): S.val("s%d" % k, x)
    def g_any(S):
        b, h, w, c, s = S.dims("b", "h", "w", "c", "s"); return b, h, w, c, h * s, w * s, s
    def g_rest(S):
        b, h, w, c, t, u = S.dims("b", "h", "w", "c", "t", "u"); return b, h, w, c, h * 3 + t, w * 3 + u, 3
    def g_two(S):
        b, h, w, c = S.dims("b", "h", "w", "c"); return b, h, w, c, 2 * h, 2 * w, 2
    def g_odd(S):
        b, h, w, c = S.dims("b", "h", "w", "c"); return b, h, w, c, 2 * h + 1, 2 * w, 2
    one("any", g_any); one("rest", g_rest); one("two", g_two); one("odd", g_odd)
    @spec("vf_%s_again" % kind)
    def _(S):
        b, h, w, c, p, q, r = S.dims("b", "h", "w", "c", "p", "q", "r")
        pool(S, kind, p, q, r, c, 2 * q, 2 * r, 2, "1"); pool(S, kind, b, h, w, c, 2 * h, 2 * w, 2); keep(S, [b, 2 * h, 2 * w, c], [b, h, w, c])
    @spec("vf_%s_same" % kind)
    def _(S):
        b, h, w, c = S.dims("b", "h", "w", "c")
        pool(S, kind, b, h, w, c, 2 * h, 2 * w, 2, "1"); pool(S, kind, b, h, w, c, 2 * h, 2 * w, 2); keep(S, [b, 2 * h, 2 * w, c], [b, h, w, c])
    @spec("vf_%s_both" % kind)
    def _(S):
        b, h, w, c = S.dims("b", "h", "w", "c")
        Y = pool(S, kind, b, h, w, c, 2 * h, 2 * w, 2, y=False); Z = pool(S, kind, b, h, w, c, 2 * h, 2 * w, 2, x="Z", sign=-1, y=False)
        S.out("Y", [b, h, w, c], lambda *i: Y(*i) - Z(*i)); keep(S, [b, 2 * h, 2 * w, c], [b, h, w, c]); S.out("Z", [b, 2 * h, 2 * w, c], S.A("Z", b, 2 * h, 2 * w, c))
reg("max"); reg("avg")
