from spec import spec
NATIVE = 30
MAXDIM = 60
OPTS = {"*": {"nocontract": ["ceras::parallel"]}}
def par(S, f):
    n, lo, k = S.dims("n", "lo", "k"); N = lo + k + n + 1
    S.out("X", [N], lambda i: S.ite(S.conj(S.le(lo, i), S.lt(i, lo + k)), f(S, i), S.flat("X")(i)))
for h in ("par", "par_threshold"):
    @spec("vf_" + h)
    def _(S): par(S, lambda S, i: 2 * S.flat("X")(i) + 1)
@spec("vf_par_zero")
def _(S): n, = S.dims("n"); S.out("X", [n], lambda i: 2 * S.flat("X")(i) + 1)
@spec("vf_par_index")
def _(S):
    n, lo, k = S.dims("n", "lo", "k"); N = lo + k + n + 1
    S.out("X", [N], lambda i: S.ite(S.conj(S.le(lo, i), S.lt(i, lo + k)), i + 1, 0))
@spec("vf_par_u32")
def _(S): n, k = S.dims("n", "k"); S.out("X", [k + n + 1], lambda i: S.ite(S.lt(i, k), 2 * S.flat("X")(i) + 1, S.flat("X")(i)))
@spec("vf_par_twice")
def _(S): n, = S.dims("n"); S.out("X", [n + 1], lambda i: S.ite(S.lt(i, n), 3 * S.flat("X")(i) + 3, S.flat("X")(i)))
@spec("vf_par_shift")
def _(S):
    n, = S.dims("n"); x, y = S.flat("X"), S.flat("Y"); S.out("X", [n + 1], lambda i: S.ite(S.lt(i, n), y(i + 1) - y(i), x(i))); S.out("Y", [n + 1], y)
@spec("vf_each1")
def _(S): n, = S.dims("n"); x = S.flat("X"); S.out("X", [n + 1], lambda i: S.ite(S.lt(i, n), 3 * x(i) - 1, x(i)))
@spec("vf_each2")
def _(S): n, = S.dims("n"); x, y = S.flat("X"), S.flat("Y"); S.out("X", [n], x); S.out("Y", [n], lambda i: x(i) - 2 * y(i))
@spec("vf_each3")
def _(S):
    n, = S.dims("n"); x, y, z = S.flat("X"), S.flat("Y"), S.flat("Z"); S.out("X", [n], x); S.out("Y", [n], y); S.out("Z", [n], lambda i: z(i) * x(i) - y(i))
@spec("vf_each4")
def _(S):
    n, = S.dims("n"); x, y, z, w = S.flat("X"), S.flat("Y"), S.flat("Z"), S.flat("W"); S.out("Z", [n], z); S.out("W", [n], lambda i: w(i) * x(i) - y(i) * z(i))
@spec("vf_each_in_place")
def _(S): n, = S.dims("n"); S.out("X", [n], lambda i: S.flat("X")(i) + 1)
@spec("vf_map")
def _(S):
    n, m = S.dims("n", "m"); x = S.A("X", n, m); S.out("X", [n, m], x); S.out("Y", [n, m], lambda i, j: x(i, j) * x(i, j))
