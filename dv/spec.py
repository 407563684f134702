"""Specification DSL.  A specification is written once and evaluated twice: on terms (what is proved) and on numbers
(the oracle that judges concrete replays of the real code)."""
import math
import terms as T
import evalnum
from terms import *

SPECS = {}          # harness name -> function(S)
def spec(*names):
    def d(f):
        for n in names: SPECS[n] = f
        return f
    return d

class Missing(Exception): pass

class SymS:
    """symbolic side: obligations on the machine state at the end of a path"""
    symbolic = True
    def __init__(self, m, sink):
        self.m = m; self.sink = sink; self.ctx = m.ctx
        self.outs = {o[0]: o for o in m.getouts()}
        self.vals = dict(m.getvals())
        self.used = set()
    # inputs
    def d(self, n):
        if n not in self.m.dims: raise Missing("dimension " + n)
        return self.m.dims[n]
    def dims(self, *ns): return [self.d(n) for n in ns]
    def x(self, n): return sym(n, "real")
    def A(self, name, *dims):
        def at(*ix):
            if len(ix) != len(dims): raise ValueError("rank")
            off = ZERO
            for i, dd in zip(ix, dims): off = off * P(dd) + P(i)
            return read(name, off)
        return at
    def flat(self, name): return lambda i: read(name, P(i))
    # operators
    def sum(self, n, f):
        if isinstance(n, int) and n <= 9:
            r = ZERO
            for i in range(n): r = r + f(P(i))
            return r
        b = fresh("q"); s = self.ctx.snapshot(); self.ctx.index(b, 0, P(n))
        try: v = P(f(b))
        finally: self.ctx.restore(s)
        return mksum([(atom_of(b), P(n))], v)
    def ext(self, kind, n, f):
        b = fresh("q"); s = self.ctx.snapshot(); self.ctx.index(b, 0, n)
        try: v = P(f(b))
        finally: self.ctx.restore(s)
        return mkext(kind, [(atom_of(b), P(n))], True, v)
    def ext2(self, kind, n1, n2, f):
        b, c = fresh("q"), fresh("q"); s = self.ctx.snapshot(); self.ctx.index(b, 0, n1); self.ctx.index(c, 0, n2)
        try: v = P(f(b, c))
        finally: self.ctx.restore(s)
        return mkext(kind, [(atom_of(b), P(n1)), (atom_of(c), P(n2))], True, v)
    def max2(self, n1, n2, f):
        if isinstance(n1, int) and isinstance(n2, int) and n1 * n2 <= 9:
            m = None
            for i in range(n1):
                for j in range(n2):
                    v = P(f(P(i), P(j))); m = v if m is None else ite(lt(m, v), v, m)
            return m
        return self.ext2("max", n1, n2, f)
    def max(self, n, f): return self.ext("max", n, f)
    def min(self, n, f): return self.ext("min", n, f)
    def got(self, name, *dims):
        """the observed contents of a result, as a function of the indices"""
        o = self.outs.get(name)
        if o is None: raise Missing(name)
        def at(*ix):
            assert len(ix) == len(dims)
            p = ZERO
            for i, dd in zip(ix, dims): p = p * P(dd) + P(i)
            return P(self.m.read_arr(o[1], P(o[3]) + p))
        return at
    def every(self, what, dims, lhs, rhs, where=None):
        """for all indices (with where): lhs == rhs"""
        ix = [fresh("i%d" % k) for k in range(len(dims))]
        s = self.ctx.snapshot()
        try:
            for i, dd in zip(ix, dims): self.ctx.index(i, 0, P(dd))
            if where is not None:
                c = where(*ix)
                if c is False: return
                self.ctx.assume(c)
                if c is not True and not self.ctx.feasible(): return
            v, w = P(lhs(*ix)), P(rhs(*ix))
            self.goal(what, v - w, (v, w))
        finally: self.ctx.restore(s)
    def fn(self, name, *a):
        import stl
        return stl.norm_math(name, *[P(x) for x in a])
    def ite(self, c, a, b): return ite(simp_cond(c, self.ctx, True), a, b)
    def lt(self, a, b): return lt(a, b)
    def le(self, a, b): return le(a, b)
    def eq(self, a, b): return eq(a, b)
    def ge(self, a, b): return le(b, a)
    def gt(self, a, b): return lt(b, a)
    def conj(self, *c): return conj(*c)
    def disj(self, *c): return disj(*c)
    def neg(self, c): return neg(c)
    def div(self, a, b): return idiv(P(a), P(b))
    def mod(self, a, b): return imod(P(a), P(b))
    def q(self, a, b=1): return P(Fr(a) / Fr(b))
    # obligations
    def assume(self, c): self.ctx.assume(c)
    def out(self, name, dims, f, cast=None, where=None):
        self.used.add(name)
        o = self.outs.get(name)
        if o is None: self.sink("result %s is produced" % name, "refuted", "missing", None); return
        _, arr, size, off, shape = o[:5]
        if len(shape) != len(dims):
            self.sink("shape of %s" % name, "refuted", "rank %d, expected %d" % (len(shape), len(dims)), None); return
        for k, (a, b) in enumerate(zip(shape, dims)):
            self.goal("shape of %s, axis %d" % (name, k), P(a) - P(b))
        tot = ONE
        for b in dims: tot = tot * P(b)
        self.goal("number of elements of %s" % name, P(size) - tot)
        ix = [fresh("i%d" % k) for k in range(len(dims))]
        s = self.ctx.snapshot()
        try:
            for i, dd in zip(ix, dims): self.ctx.index(i, 0, P(dd))
            p = ZERO
            for i, dd in zip(ix, dims): p = p * P(dd) + i
            if where is not None:
                c = where(*ix)
                if c is False: return
                self.ctx.assume(c)
                if c is not True and not self.ctx.feasible(): return
            if isinstance(arr, tuple):      # concrete items
                i = self.m.concrete_index(p)
                if i is None:
                    # enumerate
                    n = len(arr)
                    for t in range(n): 
                        jx = []; r = t
                        for dd in reversed(dims): jx.append(r % int(P(dd).const())); r //= int(P(dd).const())
                        self.goal("%s[%d]" % (name, t), P(self.m.num(arr[t])) - P(f(*[P(j) for j in reversed(jx)])))
                    return
                v = arr[i]
            else: v = self.m.read_arr(arr, P(off) + p)
            w = P(f(*ix))
            self.goal("every element of %s" % name, P(v) - w, (v, w), p, name)
        finally: self.ctx.restore(s)
    def shape_of(self, name, dims):
        self.used.add(name); o = self.outs.get(name)
        if o is None: self.sink("result %s is produced" % name, "refuted", "missing", None); return
        if len(o[4]) != len(dims): self.sink("shape of %s" % name, "refuted", "rank %d, expected %d" % (len(o[4]), len(dims)), None); return
        tot = ONE
        for k, (a, b) in enumerate(zip(o[4], dims)): self.goal("shape of %s, axis %d" % (name, k), P(a) - P(b)); tot = tot * P(b)
        self.goal("number of elements of %s" % name, P(o[2]) - tot)
    def allhold(self, what, dims, f):
        ix = [fresh("i%d" % k) for k in range(len(dims))]; s = self.ctx.snapshot()
        ix = [ZERO if self.ctx.prove(eq(P(dd), 1)) else i for i, dd in zip(ix, dims)]
        try:
            for i, dd in zip(ix, dims):
                if i != ZERO: self.ctx.index(i, 0, P(dd))
            self.holds(what, f(*ix))
        finally: self.ctx.restore(s)
    def val(self, name, expect):
        self.used.add(name)
        if name not in self.vals: self.sink("result %s is produced" % name, "refuted", "missing", None); return
        self.goal("value of %s" % name, P(self.vals[name]) - P(expect), (self.vals[name], expect))
    def goal(self, what, p, pair=None, idx=None, name=None):
        z0 = STATS["z3"]
        ok = prove_zero(p, self.ctx)
        how = "z3" if STATS["z3"] > z0 else "normal form"
        if ok: self.sink(what, "proved", how, None); return
        a, b = (pair[0], pair[1]) if pair else (p, ZERO)
        mod = None
        try: mod = refute(self.m, p)
        except Exception: mod = None
        r = evalnum.refute_eq(self.m, P(a), P(b), mod)
        self.sink(what, "unknown" if r is None else "refuted", ("code: %s ; specified: %s" % (show(P(pair[0]))[:600], show(P(pair[1]))[:600])) if pair else show(p)[:600], r)
    def holds(self, what, c):
        if c is True or self.ctx.prove(c): self.sink(what, "proved", "z3", None); return
        st, r = self.m.judge(c)
        self.sink(what, st, show_cond(c)[:400], r)

def refute(m, p):
    """a model of the path facts with p != 0 (input values for a replay), or the path facts alone"""
    q = simp(p, m.ctx)
    mod = model_inputs(m, [ne(q, 0)])
    return mod or model_inputs(m, [])
def model_inputs(m, extra):
    ctx = m.ctx
    for lim in (3, 8, 70, None):
        ex = list(extra)
        for n, p in m.dims.items():
            if lim is not None and not p.is_const(): ex.append(le(p, lim))
        r = model_reads(ctx, ex)
        if r is not None: return r
    return None
def model_reads(ctx, extra, timeout=2000):
    import z3
    s = z3.Solver(); s.set("timeout", timeout); env = T.Z3Env()
    ctx.z3facts(env, s)
    for c in extra: s.add(T.z3cond(c, env))
    for f in env.flush(): s.add(f)
    if s.check() != z3.sat: return None
    mo = s.model(); out = {"syms": {}, "sets": []}
    def num(v):
        v = mo.eval(v, model_completion=True)
        if z3.is_int_value(v): return v.as_long()
        if z3.is_rational_value(v): return float(v.as_fraction())
        if z3.is_algebraic_value(v): return float(v.approx(10).as_fraction())
        return None
    for n, x in env.syms.items():
        v = num(x)
        if v is not None: out["syms"][n] = v
    for aid in list(env.memo):
        if isinstance(aid, int) and T._atoms[aid].kind == "read":
            a = T._atoms[aid]; v = num(env.memo[aid]); i = num(T.z3poly(a.args[1], env))
            if v is not None and isinstance(i, int): out["sets"].append((a.args[0], i, v))
    return out

class NumS:
    """numeric side: compares what one replay of the real code printed with the specification"""
    symbolic = False
    def __init__(self, rec, gen, tol=1e-6):
        self.rec = rec; self.gen = gen; self.tol = tol; self.bad = None; self.n = 0
    def d(self, n):
        if n not in self.rec["dims"]: raise Missing("dimension " + n)
        return self.rec["dims"][n]
    def dims(self, *ns): return [self.d(n) for n in ns]
    def x(self, n): return self.rec["reals"][n]
    def A(self, name, *dims):
        dims = [int(d) for d in dims]
        def at(*ix):
            off = 0
            for i, dd in zip(ix, dims): off = off * dd + i
            return self.gen(name, off)
        return at
    def flat(self, name): return lambda i: self.gen(name, i)
    def sum(self, n, f):
        r = 0.0
        for i in range(int(n)): r += f(i)
        return r
    def max(self, n, f): return max(f(i) for i in range(int(n)))
    def min(self, n, f): return min(f(i) for i in range(int(n)))
    def got(self, name, *dims):
        o = self.rec["outs"].get(name)
        if o is None: raise Missing(name)
        def at(*ix):
            p = 0
            for i, dd in zip(ix, dims): p = p * int(dd) + int(i)
            return o[1][p] if 0 <= p < len(o[1]) else float("nan")
        return at
    def every(self, what, dims, lhs, rhs, where=None):
        import itertools
        for ix in itertools.product(*[range(int(d)) for d in dims]):
            if self.bad: return
            if where is not None and not where(*ix): continue
            a, b = lhs(*ix), rhs(*ix); self.n += 1
            if not self.close(a, b): self.bad = "%s at %s: %.17g, specified %.17g" % (what, list(ix), a, b)
    def max2(self, n1, n2, f): return max(f(i, j) for i in range(int(n1)) for j in range(int(n2)))
    def fn(self, name, *a):
        if name == "abs": return abs(a[0])
        if name == "cbrt": return math.copysign(abs(a[0]) ** (1 / 3), a[0])
        if name == "exp2": return 2.0 ** a[0]
        if name == "nearbyint" or name == "rint" or name == "lrint" or name == "llrint": return float(round(a[0]))
        if name in ("round", "lround", "llround"): return math.copysign(math.floor(abs(a[0]) + 0.5), a[0])
        if name == "tgamma": return math.gamma(a[0])
        try: return getattr(math, name)(*a)
        except (ValueError, OverflowError): raise NumUndefined()
    def ite(self, c, a, b): return a if c else b
    def lt(self, a, b): return a < b
    def le(self, a, b): return a <= b
    def eq(self, a, b): return a == b
    def ge(self, a, b): return a >= b
    def gt(self, a, b): return a > b
    def conj(self, *c): return all(c)
    def disj(self, *c): return any(c)
    def neg(self, c): return not c
    def div(self, a, b): return int(a) // int(b)
    def mod(self, a, b): return int(a) % int(b)
    def q(self, a, b=1): return a / b
    def assume(self, c):
        if not c: raise NumUndefined()
    def close(self, a, b):
        if a == b: return True
        if isinstance(b, float) and (b != b or abs(b) > 1e300): raise NumUndefined()
        if a != a: return False
        return abs(a - b) <= self.tol * max(1.0, abs(a), abs(b))
    def out(self, name, dims, f, cast=None, where=None):
        if self.bad: return
        o = self.rec["outs"].get(name)
        if o is None: self.bad = "result %s missing" % name; return
        shape, data = o
        dims = [int(d) for d in dims]
        if shape != dims: self.bad = "shape of %s is %s, expected %s" % (name, shape, dims); return
        tot = 1
        for d in dims: tot *= d
        if len(data) != tot: self.bad = "%s has %d elements, expected %d" % (name, len(data), tot); return
        for t in range(tot):
            ix = []; r = t
            for dd in reversed(dims): ix.append(r % dd); r //= dd
            if where is not None and not where(*reversed(ix)): continue
            w = f(*reversed(ix)); self.n += 1
            if not self.close(data[t], w): self.bad = "%s%s is %.17g, specified %.17g" % (name, list(reversed(ix)), data[t], w); return
    def shape_of(self, name, dims):
        if self.bad: return
        o = self.rec["outs"].get(name)
        if o is None: self.bad = "result %s missing" % name
        elif o[0] != [int(d) for d in dims]: self.bad = "shape of %s is %s, expected %s" % (name, o[0], [int(d) for d in dims])
        elif len(o[1]) != math.prod(o[0]): self.bad = "%s has %d elements" % (name, len(o[1]))
    def allhold(self, what, dims, f):
        import itertools
        for ix in itertools.product(*[range(int(d)) for d in dims]):
            if self.bad: return
            self.n += 1
            if not f(*ix): self.bad = "%s fails at %s" % (what, list(ix))
    def val(self, name, expect):
        if self.bad: return
        v = self.rec["vals"].get(name); self.n += 1
        if v is None: self.bad = "value %s missing" % name; return
        if not self.close(v, float(expect)): self.bad = "%s is %.17g, specified %.17g" % (name, v, expect)
    def holds(self, what, c):
        self.n += 1
        if not self.bad and not c: self.bad = what
class NumUndefined(Exception): pass
