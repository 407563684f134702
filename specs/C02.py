from spec import spec
NATIVE = 25
R1, R2, R3, R4 = ("n",), ("m", "n"), ("l", "m", "n"), ("k", "l", "m", "n")
def at(S, name, dims, full):
    """operand with shape `dims` (names, or 1) aligned at the last axis of `full`, read at a full index"""
    X = S.A(name, *[d if isinstance(d, int) else S.d(d) for d in dims])
    o = len(full) - len(dims)
    return lambda *ix: X(*[0 if isinstance(d, int) else ix[o + k] for k, d in enumerate(dims)]), X
def binop(h, full, da, db, f):
    @spec(h)
    def _(S):
        a, A = at(S, "A", da, full); b, B = at(S, "B", db, full)
        S.out("C", [S.d(x) for x in full], lambda *ix: f(a(*ix), b(*ix)))
        S.out("A", [d if isinstance(d, int) else S.d(d) for d in da], A); S.out("B", [d if isinstance(d, int) else S.d(d) for d in db], B)
add = lambda x, y: x + y
sub = lambda x, y: x - y
mul = lambda x, y: x * y
div = lambda x, y: x / y
for h, full, da, db in [("11", R1, R1, R1), ("22", R2, R2, R2), ("33", R3, R3, R3), ("21", R2, R2, R1), ("12", R2, R1, R2), ("2r", R2, R2, (1, "n")), ("2c", R2, R2, ("m", 1)),
                        ("cr", R2, ("m", 1), (1, "n")), ("rc", R2, (1, "n"), ("m", 1)), ("2s", R2, R2, (1,)), ("s2", R2, (1,), R2), ("31", R3, R3, R1), ("32", R3, R3, R2),
                        ("3m", R3, R3, ("l", 1, "n")), ("3k", R3, R3, ("m", 1)), ("1b", R3, (1, "m", "n"), ("l", "m", 1)), ("43", R4, R4, ("k", 1, 1, "n"))]:
    binop("vf_add" + h, full, da, db, add)
for h, full, da, db in [("22", R2, R2, R2), ("11", R1, R1, R1), ("21", R2, R2, R1), ("12", R2, R1, R2), ("2c", R2, R2, ("m", 1)), ("cr", R2, ("m", 1), (1, "n")), ("3m", R3, ("l", 1, "n"), R3)]:
    binop("vf_sub" + h, full, da, db, sub)
for h, f in [("add", add), ("sub", sub), ("mul", mul), ("div", div)]: binop("vf_i_" + h, R2, R2, R2, f)
for h, full, da, db in [("22", R2, R2, R2), ("21", R2, R2, R1), ("12", R2, R1, R2), ("32", R3, R3, R2), ("31", R3, R3, R1)]: binop("vf_ep" + h, full, da, db, mul)
binop("vf_ed22", R2, R2, R2, div)
def un(h, *fs, keep=True):
    @spec(h)
    def _(S):
        m, n = S.dims("m", "n"); A = S.A("A", m, n)
        for nm, f in zip("CD", fs): S.out(nm, [m, n], lambda i, j: f(S, A(i, j)))
        if keep: S.out("A", [m, n], A)
un("vf_addself", lambda S, x: x + x); un("vf_subself", lambda S, x: x - x)
un("vf_s_add", lambda S, x: x + S.x("s"), lambda S, x: x + S.x("s")); un("vf_s_sub", lambda S, x: x - S.x("s"), lambda S, x: S.x("s") - x)
un("vf_s_mul", lambda S, x: x * S.x("s"), lambda S, x: x * S.x("s")); un("vf_s_div", lambda S, x: x / S.x("s"))
un("vf_neg", lambda S, x: -x); un("vf_abs", lambda S, x: S.fn("abs", x))
for h, f in [("add", add), ("sub", sub), ("mul", mul), ("div", div)]: un("vf_is_" + h, lambda S, x, f=f: f(x, S.x("s")), keep=False)
@spec("vf_mixed")
def _(S):
    m, n = S.dims("m", "n"); A = S.A("A", m, n); B = S.A("B", m, n)
    S.out("C", [m, n], lambda i, j: A(i, j) + B(i, j)); S.out("D", [m, n], lambda i, j: A(i, j) - B(i, j)); S.out("A", [m, n], A); S.out("B", [m, n], B)
@spec("vf_bshape")
def _(S):
    l, m, n = S.dims("l", "m", "n"); S.val("r", 3); S.val("s0", l); S.val("s1", m); S.val("s2", n)
@spec("vf_btens")
def _(S):
    l, m, n = S.dims("l", "m", "n"); B = S.A("B", m, 1); S.out("C", [l, m, n], lambda i, j, k: B(j, 0)); S.out("B", [m, 1], B)
@spec("vf_btens1")
def _(S):
    m, n = S.dims("m", "n"); B = S.A("B", 1, n); S.out("C", [m, n], lambda i, j: B(0, j)); S.out("B", [1, n], B)
