from spec import spec
NATIVE = 8
BUDGET = 60
MAXDIM = 3
def shape(S, d):
    S.val("rank", len(d))
    for k, x in enumerate(d): S.val("s%d" % k, x)
class Geo:
    """geometry: output row i and kernel row r read input row i*s + r*d - p"""
    def __init__(self, h, w, oh, ow, kr, kc, s=(1, 1), d=(1, 1), p=(0, 0)): self.h, self.w, self.oh, self.ow, self.kr, self.kc, self.s, self.d, self.p = h, w, oh, ow, kr, kc, s, d, p
    def src(self, i, j, r, c): return i * self.s[0] + r * self.d[0] - self.p[0], j * self.s[1] + c * self.d[1] - self.p[1]
    def inside(self, S, y, x):
        if self.p == (0, 0): return True
        return S.conj(S.le(0, y), S.lt(y, self.h), S.le(0, x), S.lt(x, self.w))
    def get(self, S, X, b, i, j, r, c, k):
        y, x = self.src(i, j, r, c); ok = self.inside(S, y, x)
        return X(b, y, x, k) if ok is True else (S.ite(ok, X(b, y, x, k), 0) if not isinstance(ok, bool) else 0)
def col(h, names, f, first=None):
    @spec("vf_" + h)
    def _(S):
        for sfx, ns in (("1", first), ("", names)):
            if ns is None: continue
            b, g, c = f(S, *S.dims(*ns.split()))
            X = S.A("X" + sfx, b, g.h, g.w, c); G = S.A("G" + sfx, g.kr * g.kc * c, b * g.oh * g.ow)
            def val(i, j):
                return g.get(S, X, S.div(j, g.oh * g.ow), S.div(S.mod(j, g.oh * g.ow), g.ow), S.mod(S.mod(j, g.oh * g.ow), g.ow), S.div(i, g.kc * c), S.div(S.mod(i, g.kc * c), c), S.mod(S.mod(i, g.kc * c), c))
            S.out("Y" + sfx, [g.kr * g.kc * c, b * g.oh * g.ow], val)
            def grad(bb, y, x, k):
                def t(r, q, i, j):
                    yy, xx = g.src(i, j, r, q)
                    return S.ite(S.conj(S.eq(yy, y), S.eq(xx, x)), G((r * g.kc + q) * c + k, (bb * g.oh + i) * g.ow + j), 0)
                return S.sum(g.kr, lambda r: S.sum(g.kc, lambda q: S.sum(g.oh, lambda i: S.sum(g.ow, lambda j: t(r, q, i, j)))))
            S.out("GX" + sfx, [b, g.h, g.w, c], grad)
            if sfx == "": S.out("X", [b, g.h, g.w, c], X); S.out("G", [g.kr * g.kc * c, b * g.oh * g.ow], G); shape(S, [g.kr * g.kc * c, b * g.oh * g.ow])
col("col", "b oh ow c kr kc", lambda S, b, oh, ow, c, kr, kc: (b, Geo(oh + kr - 1, ow + kc - 1, oh, ow, kr, kc), c))
col("col_sq", "b oh ow c kr", lambda S, b, oh, ow, c, kr: (b, Geo(oh + kr - 1, ow + kr - 1, oh, ow, kr, kr), c))
col("col_st", "b oh ow c kr kc sr sc", lambda S, b, oh, ow, c, kr, kc, sr, sc: (b, Geo((oh - 1) * sr + kr, (ow - 1) * sc + kc, oh, ow, kr, kc, (sr, sc)), c))
col("col_dil", "b oh ow c kr kc dr dc", lambda S, b, oh, ow, c, kr, kc, dr, dc: (b, Geo(oh + (kr - 1) * dr, ow + (kc - 1) * dc, oh, ow, kr, kc, (1, 1), (dr, dc)), c))
col("col_pad", "b h w c kr kc pr pc", lambda S, b, h, w, c, kr, kc, pr, pc: (b, Geo(h, w, h + 2 * pr - kr + 1, w + 2 * pc - kc + 1, kr, kc, p=(pr, pc)), c))
col("col_rest", "b oh ow c t u", lambda S, b, oh, ow, c, t, u: (b, Geo((oh - 1) * 3 + 2 + t, (ow - 1) * 2 + 3 + u, oh, ow, 2, 3, (3, 2)), c))
tw = lambda S, b, oh, ow, c, kr, kc: (b, Geo(oh + kr - 1, ow + kc - 1, oh, ow, kr, kc), c)
col("col_two", "b oh ow c kr kc", tw, "p q r c kr kc")
tp = lambda S, b, h, w, c: (b, Geo(h, w, h, w, 3, 3, p=(1, 1)), c)
col("col_two_pad", "b h w c", tp, "p q r c")
def value(S, g, X, K, c): return lambda b, i, j, o: S.sum(g.kr, lambda r: S.sum(g.kc, lambda q: S.sum(c, lambda k: K(o, r, q, k) * g.get(S, X, b, i, j, r, q, k))))
def gx(S, g, K, G, o):
    def f(b, y, x, k):
        def t(r, q, i, j):
            yy, xx = g.src(i, j, r, q)
            return S.ite(S.conj(S.eq(yy, y), S.eq(xx, x)), S.sum(o, lambda z: K(z, r, q, k) * G(b, i, j, z)), 0)
        return S.sum(g.kr, lambda r: S.sum(g.kc, lambda q: S.sum(g.oh, lambda i: S.sum(g.ow, lambda j: t(r, q, i, j)))))
    return f
def gk(S, g, X, G, b): return lambda z, r, q, k: S.sum(b, lambda bb: S.sum(g.oh, lambda i: S.sum(g.ow, lambda j: G(bb, i, j, z) * g.get(S, X, bb, i, j, r, q, k))))
def conv(h, names, f):
    @spec("vf_" + h)
    def _(S):
        b, g, c, o = f(S, *S.dims(*names.split()))
        X = S.A("X", b, g.h, g.w, c); K = S.A("K", o, g.kr, g.kc, c); G = S.A("G", b, g.oh, g.ow, o)
        S.out("Y", [b, g.oh, g.ow, o], value(S, g, X, K, c))
        S.out("GX", [b, g.h, g.w, c], gx(S, g, K, G, o)); S.out("GK", [o, g.kr, g.kc, c], gk(S, g, X, G, b))
        S.out("X", [b, g.h, g.w, c], X); S.out("K", [o, g.kr, g.kc, c], K); S.out("G", [b, g.oh, g.ow, o], G)
for h in ("conv", "conv_valid", "conv_gen"):
    conv(h, "b oh ow c kr kc o", lambda S, b, oh, ow, c, kr, kc, o: (b, Geo(oh + kr - 1, ow + kc - 1, oh, ow, kr, kc), c, o))
conv("conv_11", "b oh ow c o", lambda S, b, oh, ow, c, o: (b, Geo(oh, ow, oh, ow, 1, 1), c, o))
conv("conv_st", "b oh ow c kr kc o sr sc", lambda S, b, oh, ow, c, kr, kc, o, sr, sc: (b, Geo((oh - 1) * sr + kr, (ow - 1) * sc + kc, oh, ow, kr, kc, (sr, sc)), c, o))
conv("conv_dil", "b oh ow c kr kc o dr dc", lambda S, b, oh, ow, c, kr, kc, o, dr, dc: (b, Geo(oh + (kr - 1) * dr, ow + (kc - 1) * dc, oh, ow, kr, kc, (1, 1), (dr, dc)), c, o))
for h in ("conv_same", "conv_gen_same"): conv(h, "b h w c o", lambda S, b, h, w, c, o: (b, Geo(h, w, h, w, 3, 3, p=(1, 1)), c, o))
conv("conv_same53", "b h w c o", lambda S, b, h, w, c, o: (b, Geo(h, w, h, w, 5, 3, p=(2, 1)), c, o))
conv("conv_same_dil", "b h w c o", lambda S, b, h, w, c, o: (b, Geo(h, w, h, w, 3, 3, d=(2, 1), p=(2, 1)), c, o))
conv("conv_gen_same_dil", "b h w c o", lambda S, b, h, w, c, o: (b, Geo(h, w, h, w, 3, 3, d=(1, 2), p=(1, 2)), c, o))
conv("conv_same_dil12", "b h w c o", lambda S, b, h, w, c, o: (b, Geo(h, w, h, w, 3, 3, d=(1, 2), p=(1, 2)), c, o))
conv("conv_gen_same_dil31", "b h w c o", lambda S, b, h, w, c, o: (b, Geo(h, w, h, w, 3, 5, d=(3, 1), p=(3, 2)), c, o))
conv("conv_gen_st", "b oh ow c kr kc o sr sc", lambda S, b, oh, ow, c, kr, kc, o, sr, sc: (b, Geo((oh - 1) * sr + kr, (ow - 1) * sc + kc, oh, ow, kr, kc, (sr, sc)), c, o))
conv("conv_gen_dil", "b oh ow c kr kc o dr dc", lambda S, b, oh, ow, c, kr, kc, o, dr, dc: (b, Geo(oh + (kr - 1) * dr, ow + (kc - 1) * dc, oh, ow, kr, kc, (1, 1), (dr, dc)), c, o))
@spec("vf_conv_again")
def _(S):
    b, oh, ow, c, kr, kc, o, p = S.dims(*"b oh ow c kr kc o p".split()); g = Geo(oh + kr - 1, ow + kc - 1, oh, ow, kr, kc)
    K = S.A("K", o, kr, kc, c); X1 = S.A("X1", p, g.h, g.w, c); X = S.A("X", b, g.h, g.w, c); G = S.A("G", b, oh, ow, o)
    S.out("Y1", [p, oh, ow, o], value(S, g, X1, K, c)); S.out("Y", [b, oh, ow, o], value(S, g, X, K, c))
    S.out("GX", [b, g.h, g.w, c], gx(S, g, K, G, o)); S.out("GK", [o, kr, kc, c], gk(S, g, X, G, b))
@spec("vf_conv_both")
def _(S):
    b, oh, ow, c, kr, o = S.dims(*"b oh ow c kr o".split()); g = Geo(oh + kr - 1, ow + kr - 1, oh, ow, kr, kr)
    K = S.A("K", o, kr, kr, c); Q = S.A("Q", o, kr, kr, c); X = S.A("X", b, g.h, g.w, c); G = S.A("G", b, oh, ow, o)
    k, q = value(S, g, X, K, c), value(S, g, X, Q, c); gk1, gk2 = gx(S, g, K, G, o), gx(S, g, Q, G, o)
    S.out("Y", [b, oh, ow, o], lambda *i: k(*i) + q(*i)); S.out("GX", [b, g.h, g.w, c], lambda *i: gk1(*i) + gk2(*i))
    S.out("GK", [o, kr, kr, c], gk(S, g, X, G, b)); S.out("GQ", [o, kr, kr, c], gk(S, g, X, G, b))
