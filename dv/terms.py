"""Term language of the verifier: exact polynomials (rational coefficients) over hash-consed atoms.

Integers are mathematical integers, floating-point values are mathematical reals (both are recorded as
assumptions in the evidence).  Atoms: symbols, reads of input arrays, uninterpreted functions, indicators [c]
of conditions (so if-then-else is polynomial), finite sums, folds (max/min/generic), integer div/mod and
inverses of non-monomial polynomials.
"""
from fractions import Fraction as Fr
import random
import itertools, os, time
import z3

# ------------------------------------------------------------------ statistics
STATS = {"z3": 0, "z3_time": 0.0, "arith": 0, "norm": 0, "z3_unknown": 0, "memo": 0}

class Atom:
    __slots__ = ("id", "kind", "args", "sort", "fv", "lvl", "_z")
    def __repr__(self): return show_atom(self)

_tab = {}
_atoms = []
_EMPTY = frozenset()

def _argkey(a):
    if isinstance(a, Poly): return ("P", a.key())
    if isinstance(a, Atom): return ("A", a.id)
    if isinstance(a, tuple): return tuple(_argkey(x) for x in a)
    return a

def _argfv(a):
    if isinstance(a, Poly): return a.fv()
    if isinstance(a, Atom): return a.fv
    if isinstance(a, tuple):
        r = _EMPTY
        for x in a: r = r | _argfv(x)
        return r
    return _EMPTY

def _arglvl(a):
    if isinstance(a, Poly): return max((_atoms[i].lvl for m in a.d for i, _ in m), default=0)
    if isinstance(a, Atom): return a.lvl
    if isinstance(a, tuple): return max((_arglvl(x) for x in a), default=0)
    return 0

def mk(kind, args, sort, fv=None, lvl=None):
    k = (kind, _argkey(args), sort)
    a = _tab.get(k)
    if a is None:
        a = Atom(); a.id = len(_atoms); a.kind = kind; a.args = args; a.sort = sort; a._z = None
        a.lvl = _arglvl(args) if lvl is None else lvl
        if kind == "sym": a.fv = frozenset([a.id])
        else: a.fv = _argfv(args) if fv is None else fv
        _tab[k] = a; _atoms.append(a)
    return a

class Poly:
    __slots__ = ("d", "_k", "_fv")
    def __init__(self, d): self.d = d; self._k = None; self._fv = None
    def key(self):
        if self._k is None: self._k = tuple(sorted(self.d.items()))
        return self._k
    def fv(self):
        if self._fv is None:
            r = _EMPTY
            for m in self.d:
                for i, _ in m: r = r | _atoms[i].fv
            self._fv = r
        return self._fv
    def __hash__(self): return hash(self.key())
    def __eq__(self, o):
        if not isinstance(o, Poly): o = P(o)
        return self.d == o.d
    def is_const(self): return not self.d or (len(self.d) == 1 and () in self.d)
    def const(self): return self.d.get((), 0)
    def __add__(self, o):
        o = P(o)
        if not o.d: return self
        if not self.d: return o
        r = dict(self.d)
        for m, c in o.d.items():
            n = r.get(m, 0) + c
            if n == 0: r.pop(m, None)
            else: r[m] = n
        return Poly(r)
    __radd__ = __add__
    def __neg__(self): return Poly({m: -c for m, c in self.d.items()})
    def __sub__(self, o): return self + (-P(o))
    def __rsub__(self, o): return P(o) - self
    def __mul__(self, o):
        o = P(o)
        if o.is_const():
            c = o.const()
            if c == 0: return ZERO
            if c == 1: return self
            return Poly({m: v * c for m, v in self.d.items()})
        if self.is_const(): return o * self
        r = {}
        extra = None
        for m1, c1 in self.d.items():
            for m2, c2 in o.d.items():
                m = _mulmono(m1, m2)
                if isinstance(m, Poly):
                    t = m * (c1 * c2)
                    extra = t if extra is None else extra + t
                    continue
                n = r.get(m, 0) + c1 * c2
                if n == 0: r.pop(m, None)
                else: r[m] = n
        p = Poly(r)
        return p if extra is None else p + extra
    __rmul__ = __mul__
    def __truediv__(self, o): return self * inv(P(o))
    def __rtruediv__(self, o): return P(o) * inv(self)
    def __pow__(self, n):
        r = ONE
        for _ in range(n): r = r * self
        return r
    def __repr__(self): return show(self)

def _norm_num(c):
    if isinstance(c, Fr) and c.denominator == 1: return int(c)
    return c

def P(x):
    if isinstance(x, Poly): return x
    if isinstance(x, Atom): return Poly({((x.id, 1),): 1})
    if isinstance(x, bool): return ONE if x else ZERO
    if isinstance(x, int): return Poly({(): x}) if x else ZERO
    if isinstance(x, Fr): return Poly({(): x}) if x else ZERO
    if isinstance(x, float): return P(Fr(x))
    raise TypeError("not a term: %r" % (x,))
ZERO = Poly({}); ONE = Poly({(): 1})

def _mulmono(a, b):
    if not a: return b
    if not b: return a
    d = dict(a); special = None
    for i, e in b:
        n = d.get(i, 0) + e
        at = _atoms[i]
        if at.kind == "ind" and n > 1: n = 1
        if at.kind == "fn" and at.args[0] == "sqrt" and n >= 2 :
            special = True
        if n == 0: d.pop(i, None)
        else: d[i] = n
    if special:
        p = ONE
        for i, n in d.items():
            at = _atoms[i]
            if at.kind == "fn" and at.args[0] == "sqrt" and n >= 2:
                p = p * (at.args[1] ** (n // 2))
                if n % 2: p = p * Poly({((i, 1),): 1})
            else: p = p * Poly({((i, n),): 1})
        return p
    return tuple(sorted(d.items()))

# ------------------------------------------------------------------ constructors
_fresh = itertools.count()
def sym(name, sort="int"): return P(mk("sym", (name,), sort))
def fresh(prefix, sort="int"): return sym("%s!%d" % (prefix, next(_fresh)), sort)
def atom_of(p):
    """the single atom a poly consists of, or None"""
    if len(p.d) == 1:
        (m, c), = p.d.items()
        if c == 1 and len(m) == 1 and m[0][1] == 1: return _atoms[m[0][0]]
    return None
def atoms_in(p): return {_atoms[i] for m in p.d for i, _ in m}
def is_int_poly(p):
    return all(Fr(c).denominator == 1 and all(_atoms[i].sort == "int" and e > 0 for i, e in m) for m, c in p.d.items())

def read(arr, idx, sort="real"): return P(mk("read", (arr, P(idx)), sort))

def inv(p):
    if p.is_const():
        c = p.const()
        if c == 0: return P(mk("fn", ("div0",), "real"))
        return P(Fr(1) / Fr(c))
    if len(p.d) == 1:
        (m, c), = p.d.items()
        if not any(_atoms[i].kind == "ind" for i, _ in m):
            return Poly({tuple((i, -e) for i, e in m): _norm_num(Fr(1) / Fr(c))})
    # make the leading coefficient 1
    k = p.key(); lc = k[0][1]
    if lc != 1: return inv(p * (Fr(1) / Fr(lc))) * (Fr(1) / Fr(lc))
    # pull out common monomial factors (e.g. x*inv(..))
    return P(mk("inv", (p,), "real"))

_const_fn = {}
def fn(name, *args, sort="real"):
    args = tuple(P(a) for a in args)
    if name == "exp":
        p = args[0]
        if p.is_const() and p.const() == 0: return ONE
        r = ONE
        for m, c in p.d.items():
            c = Fr(c)
            base = Poly({m: 1})
            if c.denominator == 1 and abs(c) <= 8: r = r * _powatom(mk("fn", ("exp", base), "real"), int(c))
            elif c < 0: r = r * _powatom(mk("fn", ("exp", base * (-c)), "real"), -1)
            else: r = r * P(mk("fn", ("exp", base * c), "real"))
        return r
    if name == "sqrt" and args[0].is_const():
        c = Fr(args[0].const())
        import math
        if c >= 0:
            a, b = math.isqrt(c.numerator), math.isqrt(c.denominator)
            if a * a == c.numerator and b * b == c.denominator: return P(Fr(a, b))
    if name == "pow" and args[1].is_const():
        c = Fr(args[1].const())
        if c.denominator == 1 and 0 <= c <= 8: return args[0] ** int(c)
        if c == Fr(1, 2): return fn("sqrt", args[0])
        if c.denominator == 1 and -8 <= c < 0: return inv(args[0] ** int(-c))
    if name == "abs":
        p = args[0]
        return p - 2 * ind(lt(p, 0)) * p
    if name in ("tanh", "sin", "sinh", "asin", "atan", "atanh", "asinh", "erf", "tan", "cbrt"):   # odd
        p = args[0]
        if not p.d: return ZERO
        if p.key()[0][1] < 0: return -P(mk("fn", (name, -p), sort))
    if name in ("cos", "cosh"):
        p = args[0]
        if not p.d: return ONE
        if p.key()[0][1] < 0: return P(mk("fn", (name, -p), sort))
    if name == "log" and args[0] == ONE: return ZERO
    return P(mk("fn", (name,) + args, sort))
def _powatom(a, n): return ONE if n == 0 else Poly({((a.id, n),): 1})

# ------------------------------------------------------------------ conditions
# True/False | ("<", p)  p<0 | ("=", p) p==0 | ("not",c) | ("and",a,b) | ("or",a,b)
def lt(a, b):
    p = P(a) - P(b)
    c0 = p.d.get((), 0)
    if p.is_const(): return c0 < 0
    if (c0 >= BIG or c0 <= -BIG) and not is_int_poly(p): return c0 < 0       # finite values: strictly inside the range of the type
    p = _scale_pos(p)
    return ("<", p)
BIG = int(1.7e308)
def _scale_pos(p):
    k = p.key(); c = abs(Fr(k[-1][1]))
    if c != 1 and not is_int_poly(p): return p * (1 / c)
    if c != 1:
        from math import gcd
        g = 0
        for _, v in k: g = gcd(g, int(abs(v)))
        if g > 1: return Poly({m: v // g for m, v in p.d.items()})
    return p
def eq(a, b):
    p = P(a) - P(b)
    if p.is_const(): return p.const() == 0
    if p.key()[-1][1] < 0: p = -p
    return ("=", _scale_pos(p))
def neg(c):
    if c is True: return False
    if c is False: return True
    if c[0] == "not": return c[1]
    return ("not", c)
def conj(*cs):
    r = True
    for c in cs:
        if c is False: return False
        if c is True: continue
        r = c if r is True else (r if r == c else ("and", r, c))
    return r
def disj(*cs): return neg(conj(*[neg(c) for c in cs]))
def le(a, b): return neg(lt(b, a))
def gt(a, b): return lt(b, a)
def ge(a, b): return neg(lt(a, b))
def ne(a, b): return neg(eq(a, b))

def cond_fv_any(xs):
    r = set()
    for x in xs: r |= x.fv() if isinstance(x, Poly) else cond_fv(x)
    return sorted(r)
def cond_fv(c):
    if isinstance(c, bool): return _EMPTY
    if c[0] in ("<", "="): return c[1].fv()
    r = _EMPTY
    for x in c[1:]: r = r | cond_fv(x)
    return r

def ind(c):
    """indicator polynomial of a condition"""
    if c is True: return ONE
    if c is False: return ZERO
    if c[0] == "not": return ONE - ind(c[1])
    if c[0] == "and": return ind(c[1]) * ind(c[2])
    if c[0] == "or":
        a, b = ind(c[1]), ind(c[2]); return a + b - a * b
    op, p = c
    if p.is_const(): return ONE if (p.const() < 0 if op == "<" else p.const() == 0) else ZERO
    if op == "<" and is_int_poly(p):
        # canonical orientation for integers: p<0  <=>  not(-p-1 < 0)
        if p.key()[-1][1] < 0:
            return ONE - P(mk("ind", (("<", -p - 1),), "int"))
    return P(mk("ind", (c,), "int"))

def ite(c, a, b):
    if c is True: return P(a)
    if c is False: return P(b)
    a, b = P(a), P(b)
    if a == b: return a
    i = ind(c)
    return b + i * (a - b)

# ------------------------------------------------------------------ substitution
def subst(p, m):
    """m: {atom_id: Poly}"""
    if not m: return p
    ks = frozenset(m)
    return _subst(p, m, ks, {})
def _subst(p, m, ks, memo):
    if not (p.fv() & ks): return p
    r = ZERO
    for mono, c in p.d.items():
        t = P(c)
        for i, e in mono:
            a = _atoms[i]
            if a.fv & ks:
                q = memo.get(i)
                if q is None:
                    q = memo[i] = _subst_atom(a, m, ks, memo)
                if e < 0: q = inv(q); e = -e
                if len(q.d) == 1 or e == 1 or True:
                    for _ in range(e): t = t * q
            else:
                t = t * Poly({((i, e),): 1})
            if not t.d: break
        r = r + t
    return r
def subst_cond(c, m):
    if not m: return c
    return _subst_cond(c, m, frozenset(m), {})
def _subst_cond(c, m, ks, memo):
    if isinstance(c, bool): return c
    if c[0] == "<": return lt(_subst(c[1], m, ks, memo), 0)
    if c[0] == "=": return eq(_subst(c[1], m, ks, memo), 0)
    if c[0] == "not": return neg(_subst_cond(c[1], m, ks, memo))
    a, b = _subst_cond(c[1], m, ks, memo), _subst_cond(c[2], m, ks, memo)
    return conj(a, b) if c[0] == "and" else disj(a, b)

def _subst_atom(a, m, ks, memo):
    if a.id in m: return m[a.id]
    S = lambda x: _subst(x, m, ks, memo)
    k = a.kind
    if k == "read": return read(a.args[0], S(a.args[1]), a.sort)
    if k == "lread": return P(mk("lread", (a.args[0], a.args[1], S(a.args[2])), a.sort))
    if k == "fn": return fn(a.args[0], *[S(x) for x in a.args[1:]], sort=a.sort)
    if k == "inv": return inv(S(a.args[0]))
    if k == "ind": return ind(_subst_cond(a.args[0], m, ks, memo))
    if k == "div": return idiv(S(a.args[0]), S(a.args[1]))
    if k == "mod": return imod(S(a.args[0]), S(a.args[1]))
    if k == "sum": return mksum([(_atoms[b], S(n)) for b, n in a.args[0]], S(a.args[1]))
    if k == "ext": return mkext(a.args[0], [(_atoms[b], S(n)) for b, n in a.args[1]], _subst_cond(a.args[2], m, ks, memo), S(a.args[3]))
    if k == "fold": return mkfold(_atoms[a.args[0]], _atoms[a.args[1]], S(a.args[2]), S(a.args[3]), S(a.args[4]))
    raise NotImplementedError(k)

# ------------------------------------------------------------------ integer division
def polydivmod(p, q):
    """multivariate division of p by q on q's leading monomial: p = quo*q + rem (exact identity)"""
    if q.is_const():
        c = Fr(q.const())
        quo = {}; rem = {}
        for m, v in p.d.items():
            if m == ():
                quo[m] = v // c; r = v - (v // c) * c
                if r: rem[m] = r
                if not quo[m]: del quo[m]
            elif (Fr(v) / c).denominator == 1: quo[m] = _norm_num(Fr(v) / c)
            else: rem[m] = v
        return Poly(quo), Poly(rem)
    lead = max((m for m in q.d), key=lambda m: (sum(e for _, e in m), m))
    lc = q.d[lead]
    quo = ZERO; rem = p
    for _ in range(200):
        hit = None
        for m, c in sorted(rem.d.items(), key=lambda t: (-sum(e for _, e in t[0]), t[0])):
            dm = dict(m); ok = True
            for i, e in lead:
                if dm.get(i, 0) < e: ok = False; break
            if ok and (Fr(c) / lc).denominator == 1:
                hit = (m, c); break
        if hit is None: return quo, rem
        m, c = hit; dm = dict(m)
        for i, e in lead:
            dm[i] -= e
            if dm[i] == 0: del dm[i]
        t = Poly({tuple(sorted(dm.items())): _norm_num(Fr(c) / lc)})
        quo = quo + t; rem = rem - t * q
    return quo, rem

DOMAIN = {}     # input arrays with a restricted domain: 1 positive, 2 inside (-1,1)
CTX = None      # current proof context (set by the interpreter)

def _divmod(p, q):
    p, q = P(p), P(q)
    if p.is_const() and q.is_const() and q.const() != 0:
        a, b = p.const(), q.const(); return P(a // b), P(a % b)
    if q == ONE: return p, ZERO
    if p == q: return ONE, ZERO
    quo, rem = polydivmod(p, q)
    if not rem.d: return quo, ZERO
    if CTX is not None:
        if CTX.prove(le(0, rem)):
            if CTX.prove(lt(rem, q)): return quo, rem
        elif CTX.prove(lt(rem, 0)) and CTX.prove(le(0, rem + q)) and CTX.prove(lt(0, q)): return quo - ONE, rem + q
    # q = g*h and p = g*a + r with 0 <= r < g:  p div q = a div h,  p mod q = g*(a mod h) + r
    if CTX is not None and len(q.d) == 1:
        (mono, c0), = q.d.items()
        fac = [i for i, e in mono for _ in range(e)]
        if c0 == 1 and 1 < len(fac) <= 6 and CTX.prove(lt(0, q)):
            seen = set()
            for k in range(len(fac) - 1, 0, -1):
                for comb in itertools.combinations(fac, k):
                    if comb in seen: continue
                    seen.add(comb)
                    g = ONE; h = ONE; left = list(fac)
                    for i in comb: g = g * P(_atoms[i]); left.remove(i)
                    for i in left: h = h * P(_atoms[i])
                    a, r = polydivmod(p, g)
                    if a.d and CTX.prove(le(0, r)) and CTX.prove(lt(r, g)):
                        x, y = _divmod(a, h); return x, g * y + r
    # reduce the dividend by whole multiples: (quo*q + rem) div q = quo + rem div q  (valid over Z for q>0)
    if CTX is not None and quo.d and CTX.prove(lt(0, q)):
        a, b = mk("div", (rem, q), "int"), mk("mod", (rem, q), "int")
        return quo + P(a), P(b)
    return P(mk("div", (p, q), "int")), P(mk("mod", (p, q), "int"))
def idiv(p, q): return _divmod(p, q)[0]
def imod(p, q): return _divmod(p, q)[1]

# ------------------------------------------------------------------ digits of a flat index
_dm_memo = {}
def _dm_atoms(a):
    """div/mod atoms of a lone symbol inside an atom, as (symbol id, divisor)"""
    r = _dm_memo.get(a.id)
    if r is None:
        out = set()
        if a.kind in ("div", "mod"):
            x = atom_of(a.args[0])
            if x is not None and x.kind == "sym": out.add((x.id, a.args[1]))
        for x in a.args: _dm_any(x, out)
        r = _dm_memo[a.id] = frozenset(out)
    return r
def _dm_any(x, out):
    if isinstance(x, Poly):
        for m in x.d:
            for i, _ in m: out |= _dm_atoms(_atoms[i])
    elif isinstance(x, tuple):
        for y in x: _dm_any(y, out)
def split_of(x, n, xs):
    """a divisor q with n = h*q such that (x div q) or (x mod q) occurs in xs: (q, h) or None"""
    out = set()
    for o in xs: _dm_any(o, out)
    best = None
    for i, q in sorted(out, key=lambda t: (t[0], t[1].key())):
        if i != x or q.is_const() and q.const() <= 1 or x in q.fv(): continue
        h, r = polydivmod(n, q)
        if r.d or not h.d or h == ONE: continue
        k = max(sum(e for _, e in m) for m in q.d)
        if best is None or k > best[0]: best = (k, q, h)
    return best and (best[1], best[2])

def split_eq(p, ctx):
    """p == 0 for p = q*A + B with |B| < q is A == 0 and B == 0 (q: the coefficient of some index in p)"""
    if not is_int_poly(p): return eq(p, 0)
    cand = {}
    for i in p.fv():
        if i not in ctx.rng or ctx.rng[i][1] is None: continue
        co = {}
        for m, c in p.d.items():
            e = dict(m)
            if e.get(i) == 1: co[tuple(x for x in m if x[0] != i)] = c
        q = Poly(co)
        if not q.d: continue
        if not ctx.prove(lt(0, q), False): q = -q
        if q == ONE or not ctx.prove(lt(0, q), False): continue
        cand[q.key()] = q
    for q in sorted(cand.values(), key=lambda q: -max(sum(e for _, e in m) for m in q.d)):
        A, B = polydivmod(p, q)
        if not A.d or not B.d:
            if not B.d and A.d: return split_eq(A, ctx)
            continue
        if ctx.prove(lt(B, q)) and ctx.prove(lt(-B, q)): return conj(split_eq(A, ctx), split_eq(B, ctx))
    return eq(p, 0)

def split_eqs(c, ctx):
    if isinstance(c, bool): return c
    if c[0] == "=": return split_eq(c[1], ctx) if len(c[1].d) > 1 and any(len(m) > 1 for m in c[1].d) else c
    if c[0] == "not": return neg(split_eqs(c[1], ctx))
    if c[0] in ("and", "or"): 
        a, b = split_eqs(c[1], ctx), split_eqs(c[2], ctx)
        return conj(a, b) if c[0] == "and" else disj(a, b)
    return c
# ------------------------------------------------------------------ finite sums
def mksum(binders, body):
    """sum of body over all binders b in [0,n); canonical up to binder names and order"""
    body = P(body)
    if not body.d: return ZERO
    if CTX is not None:
        for k, (b, n) in enumerate(binders):
            sp = split_of(b.id, P(n), (body,))
            if sp is None or any(b.id in P(o).fv() for _, o in binders): continue
            q, h = sp; u, v = fresh("u"), fresh("v")
            nb = list(binders[:k]) + [(atom_of(u), h), (atom_of(v), q)] + list(binders[k + 1:])
            s = CTX.snapshot()
            try:
                for x, o in nb: CTX.index(P(x), 0, o)
                body = subst(body, {b.id: u * q + v})
            finally: CTX.restore(s)
            return mksum(nb, body)
    out = ZERO
    bid = {b.id: n for b, n in binders}
    order = [b.id for b, _ in binders]
    for mono, c in body.d.items():
        outside = []; inside = []
        for i, e in mono:
            (inside if (_atoms[i].fv & bid.keys()) else outside).append((i, e))
        coef = Poly({tuple(outside): c})
        # flatten an inner sum that depends on our binders
        nested = [i for i, e in inside if _atoms[i].kind == "sum"]
        if nested and all(e == 1 for i, e in inside if _atoms[i].kind == "sum"):
            nb = list(binders); rest = Poly({tuple((i, e) for i, e in inside if i not in nested): 1})
            for i in nested:
                a = _atoms[i]; ren = {}
                for b, n in a.args[0]:
                    f = fresh("k"); ren[b] = f; nb.append((atom_of(f), subst(n, ren)))
                rest = rest * subst(a.args[1], ren)
            out = out + coef * mksum(nb, rest); continue
        # delta elimination: [b*1 + r == 0] with b a binder
        el = None
        for i, e in inside:
            a = _atoms[i]
            if a.kind == "ind" and a.args[0][0] == "=":
                q = a.args[0][1]
                for b in order:
                    k = q.d.get(((b, 1),))
                    if k in (1, -1) and is_int_poly(q):
                        r = q - Poly({((b, 1),): k})
                        if b not in r.fv() and not any(b in n.fv() for n in bid.values()) and not any(sum(e for _, e in mm) > 1 and any(x in bid for x, _ in mm) for mm in r.d):
                            rk = (len(q.d), P(bid[b]).key(), q.key())
                            if el is None or rk < el[3]: el = (i, b, -r * k, rk)
        if el:
            i, b, val, _ = el
            rest = subst(Poly({tuple(x for x in inside if x[0] != i): 1}), {b: val})
            n = bid[b]
            rng = conj(le(0, val), lt(val, n))
            rng = simp_cond(rng)
            nb = [(x, m) for x, m in binders if x.id != b]
            body2 = rest * ind(rng)
            out = out + coef * (mksum(nb, body2) if nb else body2); continue
        # connected components
        used = {}
        for i, e in inside:
            for b in _atoms[i].fv & bid.keys(): used.setdefault(b, []).append((i, e))
        for b in order:
            if b not in used:
                # not used by a factor, maybe by another binder's range
                if not any(b in bid[o].fv() for o in order if o != b): coef = coef * bid[b]
                else: used[b] = []
        comps = []
        todo = [b for b in order if b in used]
        seen = set()
        for b in todo:
            if b in seen: continue
            comp = {b}; grow = True; facs = set()
            while grow:
                grow = False
                for x in list(comp):
                    for f in used[x]:
                        if f not in facs:
                            facs.add(f); grow = True
                        for y in _atoms[f[0]].fv & bid.keys():
                            if y not in comp and y in used: comp.add(y); grow = True
                    for y in bid[x].fv() & bid.keys():
                        if y not in comp and y in used: comp.add(y); grow = True
                    for y in used:
                        if y not in comp and x in bid[y].fv(): comp.add(y); grow = True
            seen |= comp
            comps.append(([x for x in order if x in comp], tuple(sorted(facs))))
        t = coef
        for bs, facs in comps: t = t * _canon_sum([(b, bid[b]) for b in bs], Poly({facs: 1}))
        out = out + t
    return out

_sum_memo = {}
def _canon_sum(bs, body):
    mk_ = (tuple((b, n.key()) for b, n in bs), body.key())
    r = _sum_memo.get(mk_)
    if r is not None: return r
    lvl = 1 + max([_arglvl(body)] + [_arglvl(n) for _, n in bs])
    best = None
    # constant trip counts expand
    for j, (b, n) in enumerate(bs):
        if n.is_const() and n.const() <= 6:
            rest = bs[:j] + bs[j + 1:]
            out = ZERO
            for v in range(int(n.const())):
                s = {b: P(v)}
                bb = subst(body, s)
                out = out + (mksum([(_atoms[x], subst(m, s)) for x, m in rest], bb) if rest else bb)
            _sum_memo[mk_] = out
            return out
    perms = list(itertools.permutations(range(len(bs)))) if len(bs) <= 4 else [tuple(sorted(range(len(bs)), key=lambda i: bs[i][1].key()))]
    for perm in perms:
        ren = {bs[o][0]: sym("$%d_%d" % (lvl, k)) for k, o in enumerate(perm)}
        nb = tuple((atom_of(ren[bs[o][0]]).id, subst(bs[o][1], ren)) for o in perm)
        bd = subst(body, ren)
        if len(bd.d) != 1 or True:
            cand = (tuple((b, n.key()) for b, n in nb), bd.key())
            if best is None or cand < best[0]: best = (cand, nb, bd)
    _, nb, bd = best
    # substitution may have produced several monomials (e.g. indicator orientation); re-distribute
    if len(bd.d) == 1:
        (mono, c), = bd.d.items()
        bset = {b for b, _ in nb}
        fv = _EMPTY
        for b, n in nb: fv = fv | n.fv()
        fv = (fv | bd.fv()) - bset
        r = P(mk("sum", (nb, Poly({mono: 1})), _sort_of(bd), fv=fv, lvl=lvl)) * c
    else:
        r = mksum([(_atoms[b], n) for b, n in nb], bd)
    _sum_memo[mk_] = r
    return r
def _sort_of(p): return "int" if is_int_poly(p) else "real"

def mkext(kind, binders, guard, body):
    """max/min over a (non-empty) index set {binders | guard}"""
    bs = [(b, P(n)) for b, n in binders]
    body = P(body)
    used = body.fv() | cond_fv(guard)
    for _, n in bs: used = used | n.fv()
    if kind[:3] == "arg":       # least position of the extremum; one binder
        b, n = bs[0]
        if b.id not in body.fv() or n == ONE: return ZERO
        if body.d[min(body.d)] < 0: kind = "argmin" if kind == "argmax" else "argmax"; body = -body
        if n.is_const() and 1 <= n.const() <= 4:
            r, x = ZERO, subst(body, {b.id: ZERO})
            for v in range(1, int(n.const())):
                y = subst(body, {b.id: P(v)}); c = lt(x, y) if kind == "argmax" else lt(y, x)
                r, x = ite(c, P(v), r), ite(c, y, x)
            return r
    bs = [(b, n) for b, n in bs if b.id in used]
    if not bs: return body
    if len(bs) == 1 and kind[:3] != "arg" and bs[0][1].is_const() and guard is True and 1 <= bs[0][1].const() <= 4:
        r = None
        for v in range(int(bs[0][1].const())):
            x = subst(body, {bs[0][0].id: P(v)})
            r = x if r is None else (ite(lt(r, x), x, r) if kind == "max" else ite(lt(x, r), x, r))
        return r
    lvl = 1 + max([_arglvl(body), _arglvl(guard)] + [_arglvl(n) for _, n in bs])
    best = None
    for perm in (itertools.permutations(range(len(bs))) if len(bs) <= 4 else [range(len(bs))]):
        ren = {bs[o][0].id: sym("$%d_%d" % (lvl, k)) for k, o in enumerate(perm)}
        nb = tuple((atom_of(ren[bs[o][0].id]).id, subst(bs[o][1], ren)) for o in perm)
        bd = subst(body, ren); g = subst_cond(guard, ren)
        cand = (tuple((b, n.key()) for b, n in nb), bd.key(), repr(_argkey(g)))
        if best is None or cand < best[0]: best = (cand, nb, bd, g)
    _, nb, bd, g = best
    bset = {b for b, _ in nb}
    fv = bd.fv() | cond_fv(g)
    for b, n in nb: fv = fv | n.fv()
    return P(mk("ext", (kind, nb, g, bd), "int" if kind[:3] == "arg" else _sort_of(bd), fv=fv - bset, lvl=lvl))

def mkfold(h, it, n, init, body):
    """generic fold: x := init; for it in [0,n): x := body[h:=x]"""
    n, init, body = P(n), P(init), P(body)
    if n.is_const() and n.const() <= 6:
        x = init
        for v in range(int(n.const())): x = subst(body, {h.id: x, it.id: P(v)})
        return x
    lvl = 1 + max(_arglvl(body), _arglvl(n), _arglvl(init))
    hh, ii = sym("$h%d" % lvl, h.sort), sym("$i%d" % lvl)
    body = subst(body, {h.id: hh, it.id: ii})
    a, b = atom_of(hh), atom_of(ii)
    fv = (body.fv() - {a.id, b.id}) | n.fv() | init.fv()
    return P(mk("fold", (a.id, b.id, n, init, body), h.sort, fv=fv, lvl=lvl))

# ------------------------------------------------------------------ printing
def show_atom(a):
    k = a.kind
    if k == "sym": return a.args[0]
    if k == "read": return "%s[%s]" % (a.args[0], show(a.args[1]))
    if k == "lread": return "%s@loop%s[%s]" % (a.args[1], a.args[0], show(a.args[2]))
    if k == "fn": return "%s(%s)" % (a.args[0], ", ".join(show(x) for x in a.args[1:]))
    if k == "inv": return "1/(%s)" % show(a.args[0])
    if k == "ind": return "[%s]" % show_cond(a.args[0])
    if k == "div": return "(%s div %s)" % (show(a.args[0]), show(a.args[1]))
    if k == "mod": return "(%s mod %s)" % (show(a.args[0]), show(a.args[1]))
    if k == "sum": return "SUM{%s}(%s)" % (", ".join("%s<%s" % (show_atom(_atoms[b]), show(n)) for b, n in a.args[0]), show(a.args[1]))
    if k == "ext": return "%s{%s|%s}(%s)" % (a.args[0].upper(), ", ".join("%s<%s" % (show_atom(_atoms[b]), show(n)) for b, n in a.args[1]), show_cond(a.args[2]), show(a.args[3]))
    if k == "fold": return "FOLD{%s<%s; %s=%s}(%s)" % (show_atom(_atoms[a.args[1]]), show(a.args[2]), show_atom(_atoms[a.args[0]]), show(a.args[3]), show(a.args[4]))
    return k
def show(p):
    if not p.d: return "0"
    out = []
    for m, c in sorted(p.d.items(), key=lambda t: (-len(t[0]), t[0])):
        f = "*".join(show_atom(_atoms[i]) + ("^%d" % e if e != 1 else "") for i, e in m)
        cs = str(c) if isinstance(c, int) or Fr(c).denominator < 10**6 else "%.9g" % float(c)
        out.append(f if c == 1 and f else ("-" + f if c == -1 and f else (cs + ("*" + f if f else ""))))
    return " + ".join(out)
def show_cond(c):
    if isinstance(c, bool): return str(c)
    if c[0] == "<": return "%s < 0" % show(c[1])
    if c[0] == "=": return "%s == 0" % show(c[1])
    if c[0] == "not": return "!(%s)" % show_cond(c[1])
    return "(%s %s %s)" % (show_cond(c[1]), c[0], show_cond(c[2]))

# ------------------------------------------------------------------ proof context
class NotInt(Exception): pass
_cc = {}
def _csrc_poly(p):
    if not p.d: return "0"
    out = []
    for m, c in p.d.items():
        if Fr(c).denominator != 1: raise NotInt()
        t = ["(%d)" % c] if c != 1 or not m else []
        for i, e in m:
            a = _atoms[i]
            if e < 0: raise NotInt()
            if a.sort != "int": raise NotInt()
            if a.kind == "sym": x = "E[%d]" % i
            elif a.kind in ("div", "mod"): x = "(%s%s%s)" % ("(" + _csrc_poly(a.args[0]) + ")", "//" if a.kind == "div" else "%", "(" + _csrc_poly(a.args[1]) + ")")
            elif a.kind == "ind": x = "(1 if %s else 0)" % _csrc_cond(a.args[0])
            else: raise NotInt()
            t += [x] * e
        out.append("*".join(t))
    return "+".join(out)
def _csrc_cond(c):
    if c is True: return "True"
    if c is False: return "False"
    if c[0] == "<": return "(%s<0)" % _csrc_poly(c[1])
    if c[0] == "=": return "(%s==0)" % _csrc_poly(c[1])
    if c[0] == "not": return "(not %s)" % _csrc_cond(c[1])
    if c[0] == "and": return "(%s and %s)" % (_csrc_cond(c[1]), _csrc_cond(c[2]))
    raise NotInt()
def _compiled(k, src):
    f = _cc.get(k)
    if f is None:
        try: f = eval("lambda E: " + src())
        except (NotInt, RecursionError, MemoryError, SyntaxError): f = 0
        _cc[k] = f
    if f == 0: raise NotInt()
    return f
def compile_poly(p): return _compiled(p.key(), lambda: _csrc_poly(p))
def compile_cond(c): return _compiled(_argkey(c), lambda: _csrc_cond(c))
class Context:
    """path facts + ranges of index symbols; every query is memoised"""
    def __init__(self):
        self.facts = []          # conditions
        self.rng = {}            # atom id -> (lo Poly, hi Poly exclusive or None)
        self.order = []          # order in which ranges were introduced
        self.memo = {}
        self.version = 0
        self.z3timeout = 1500
        self.quick = False
        self.insplit = False; self.pool = []; self.random = random.Random(7)
    def snapshot(self): return (len(self.facts), len(self.order))
    def restore(self, s):
        del self.facts[s[0]:]
        for i in self.order[s[1]:]: self.rng.pop(i, None)
        del self.order[s[1]:]
        self.version += 1
    def assume(self, c):
        if c is True: return
        if isinstance(c, tuple) and c[0] == "and":
            self.assume(c[1]); self.assume(c[2]); return
        self.facts.append(c); self.version += 1
    def index(self, p, lo, hi):
        a = atom_of(p)
        self.rng[a.id] = (P(lo), None if hi is None else P(hi)); self.order.append(a.id); self.version += 1
    def _fk(self):
        return (tuple(_argkey(f) for f in self.facts), tuple((i, self.rng[i][0].key(), None if self.rng[i][1] is None else self.rng[i][1].key()) for i in self.order))
    def fkey(self):
        if getattr(self, "_fkv", None) != self.version:
            self._fkc = hash(self._fk()); self._fkv = self.version
        return self._fkc
    # -------- prove
    def prove(self, c, z=True):
        if isinstance(c, bool): return c
        k = (self.fkey(), _argkey(c), z)
        r = self.memo.get(k)
        if r is None:
            r = self.memo[k] = self._prove(c, z)
        else: STATS["memo"] += 1
        return r
    def _prove(self, c, z):
        if c in self.facts or any(f is False for f in self.facts): return True
        if c[0] == "and": return self.prove(c[1], z) and self.prove(c[2], z)
        n = neg(c)
        if n in self.facts: return False
        if c[0] == "<" and self.bound(c[1], strict=True): STATS["arith"] += 1; return True
        if c[0] == "not" and c[1][0] == "<" and self.bound(-c[1][1], strict=False): STATS["arith"] += 1; return True
        if c[0] == "not" and c[1][0] == "=":
            p = c[1][1]
            if self.bound(p, True) or self.bound(-p, True): STATS["arith"] += 1; return True
        # cheap refutation
        if c[0] == "<" and self.bound(-c[1], strict=False): return False
        if c[0] == "not" and c[1][0] == "<" and self.bound(c[1][1], strict=True): return False
        if c[0] == "=":
            p = c[1]
            if self.bound(p, True) or self.bound(-p, True): return False
        if not z: return False
        # modulo an equality among the facts
        p = c[1] if c[0] in ("<", "=") else -c[1][1] if c[0] == "not" and c[1][0] == "<" else None
        if p is not None and c[0] != "=":
            for f in self.facts:
                # f: g < 0 or g <= 0
                g = f[1] if f[0] == "<" else -f[1][1] if f[0] == "not" and f[1][0] == "<" else None
                if g is not None and is_int_poly(g) and any(len(m) > 1 and p.d.get(m) == v for m, v in g.d.items()):
                    if self.bound(p - g, c[0] == "<" and f[0] != "<"): STATS["arith"] += 1; return True
                if f[0] != "=" or not is_int_poly(f[1]) or len(f[1].d) < 2: continue
                for m, v in f[1].d.items():
                    if len(m) > 1 and m in p.d and Fr(p.d[m]) / v in (1, -1):
                        q = p - f[1] * (p.d[m] // v)
                        if self.bound(q, c[0] == "<"): STATS["arith"] += 1; return True
        if not self.insplit:
            s = self.snapshot(); m = self.digits(c); self.insplit = True
            try:
                if m:
                    for f in self.facts[:s[0]]:
                        g = subst_cond(f, m)
                        if g != f: self.assume(g)
                    c2 = subst_cond(c, m)
                    return self.prove(c2)
            finally: self.insplit = False; self.restore(s)
        if self.witness(c): STATS["witness"] = STATS.get("witness", 0) + 1; return False
        return self.z3prove(c)
    def digits(self, *xs):
        """indices of xs that are only used through quotients and remainders, written with their digits (ranges are added to the context)"""
        m = {}
        for _ in range(12):
            hit = None
            for i in cond_fv_any(xs):
                r = self.rng.get(i)
                if r is None or r[1] is None or r[0].d or any(i in lo.fv() or hi is not None and i in hi.fv() for lo, hi in self.rng.values()): continue
                sp = split_of(i, r[1], xs)
                if sp is not None: hit = (i, sp); break
            if hit is None: break
            i, (q, h) = hit; u, v = fresh("u"), fresh("v"); self.index(u, 0, h); self.index(v, 0, q)
            one = {i: u * q + v}
            m = {k: subst(x, one) for k, x in m.items()}; m[i] = one[i]
            xs = [subst(x, one) if isinstance(x, Poly) else subst_cond(x, one) for x in xs]
        return m
    def witness(self, c):
        """a concrete assignment of the integer symbols that satisfies every fact and falsifies c (then c is not provable)"""
        try:
            g = compile_cond(c); fs = [compile_cond(f) for f in self.facts]; rs = [(i, compile_poly(self.rng[i][0]), None if self.rng[i][1] is None else compile_poly(self.rng[i][1])) for i in self.order]
        except NotInt: return False
        R = self.random; free = set(cond_fv(c))
        for f in self.facts: free |= cond_fv(f)
        free -= set(self.order)
        pool = self.pool; k = self.fkey()
        cand = [(e, t) for e in list(pool) for t in range(2)]
        n = 0 if self.memo.get(("wit", k)) else 150
        self.memo[("wit", k)] = True
        for e0, t in cand + [(None, 0)] * n:
            E = {}
            try:
                for i in free: E[i] = e0[i] if e0 and i in e0 else R.randint(-1, 3)
                ok = True
                for i, lo, hi in rs:
                    l = lo(E); h = l + 3 if hi is None else min(hi(E) - 1, l + 3)
                    v = e0.get(i) if e0 else None
                    if v is not None and v >= l and (hi is None or v < hi(E)) and not (t and hi is not None): E[i] = v
                    elif h < l: ok = False; break
                    else: E[i] = R.randint(l, h)
                if not ok: continue
                if not all(f(E) for f in fs): continue
                if e0 is None or t:
                    pool.insert(0, E); del pool[24:]
                if not g(E): return True
            except ZeroDivisionError: continue
        return False
    # p < 0 (strict) or p <= 0, by monotone substitution of index symbols and dims >= lo
    def bound(self, p, strict):
        if is_int_poly(p):
            if strict: p = p + 1
        elif strict: return self._bound_real(p, strict)
        for _ in range(12):
            ids = [i for i in reversed(self.order) if i in p.fv()]
            # div/mod atoms as index variables
            extra = [a for a in atoms_in(p) if a.kind in ("mod", "div")]
            if extra:
                a = max(extra, key=lambda x: (x.kind == "mod", x.id))
                pp, q = a.args
                if a.kind == "mod": rng = (ZERO, q)
                else:
                    hi = None
                    rng = (ZERO, hi)
                    if not self.bound(-pp, False) and not self.prove(le(0, pp)): return False
                    # p < t*q  ->  div < t : use the bound of the dividend
                    up = self.upper(pp)
                    if up is not None:
                        t, r = polydivmod(up, q)
                        if not r.d: rng = (ZERO, t + 1)
                        elif r.d and self.bound(r - q + 1, False) and self.bound(-r, False): rng = (ZERO, t + 1)
                        elif self.bound(r + 1, False): rng = (ZERO, t)
                q2 = self._subst_extreme(p, a.id, rng)
                if q2 is None: return False
                p = q2; continue
            if not ids: break
            prog = False
            # only handle symbols that have an upper bound first
            for i in ids:
                lo, hi = self.rng[i]
                if hi is None: continue
                q = self._subst_extreme(p, i, (lo, hi))
                if q is None: continue
                p = q; prog = True; break
            if not prog: break
        # now dims: sym >= lo -> sym = lo + s', s' >= 0
        m = {}
        for i in p.fv():
            r = self.rng.get(i)
            a = _atoms[i]
            if r is not None:
                if r[0].d: m[i] = r[0] + P(a)
            else: return False
        for a in atoms_in(p):
            if a.kind != "sym": return False
        if m: p = subst(p, m)
        return all(c <= 0 for c in p.d.values())
    def _bound_real(self, p, strict):
        return False
    def _subst_extreme(self, p, i, rng):
        # p = A*x + B, affine in x
        A = {}; B = {}
        for m, c in p.d.items():
            e = dict(m).get(i, 0)
            if e == 0: B[m] = c
            elif e == 1: A[tuple(x for x in m if x[0] != i)] = c
            else: return None
        A, B = Poly(A), Poly(B)
        if i in B.fv() or i in A.fv():
            # occurs inside another atom
            return None
        if self._sign(A, 1):
            if rng[1] is None: return None
            return A * (rng[1] - 1) + B
        if self._sign(A, -1): return A * rng[0] + B
        return None
    def _sign(self, A, s):
        if A.is_const(): return A.const() * s >= 0
        return self.bound(A * (-s), strict=False)
    def upper(self, p):
        """a polynomial upper bound (inclusive) of p, free of upper-bounded index symbols"""
        for _ in range(12):
            ids = [i for i in reversed(self.order) if i in p.fv() and self.rng[i][1] is not None]
            extra = [a for a in atoms_in(p) if a.kind == "mod"]
            if extra:
                a = extra[0]; q = self._subst_extreme(p, a.id, (ZERO, a.args[1]))
                if q is None: return None
                p = q; continue
            if not ids: return p
            for i in ids:
                q = self._subst_extreme(p, i, self.rng[i])
                if q is not None: p = q; break
            else: return None
        return None
    # -------- z3
    def z3facts(self, env, s):
        for f in self.facts: s.add(z3cond(f, env))
        for i in self.order:
            x = z3atom(_atoms[i], env); lo, hi = self.rng[i]
            s.add(x >= z3poly(lo, env))
            if hi is not None: s.add(x < z3poly(hi, env))
    def z3prove(self, c):
        t0 = time.time(); STATS["z3"] += 1
        if t0 > getattr(self, "deadline", t0): raise Timeout()
        s = z3.Solver(); s.set("timeout", self.z3timeout)
        env = Z3Env()
        self.z3facts(env, s); s.add(z3.Not(z3cond(c, env)))
        for f in env.flush(): s.add(f)
        try: r = s.check()
        except z3.Z3Exception: r = z3.unknown
        STATS["z3_time"] += time.time() - t0
        if r == z3.unknown and any(len(v) > 1 for v in env.prods.values()):
            # products with a common factor: monotone in the other one
            s = z3.SolverFor("QF_UFLIA"); s.set("timeout", self.z3timeout); env2 = Z3Env(); env2.lin = True
            self.z3facts(env2, s); s.add(z3.Not(z3cond(c, env2)))
            for f in env2.flush(): s.add(f)
            for f in product_lemmas(env2): s.add(f)
            try: r = s.check()
            except z3.Z3Exception: r = z3.unknown
            if r == z3.sat: r = z3.unknown
            STATS["z3_time"] += time.time() - t0
        if r == z3.unknown: STATS["z3_unknown"] += 1
        import os
        if os.environ.get("DVDBG") and r != z3.unsat: print("NOTPROVED", r, show_cond(c), "\n    FACTS", [show_cond(f) for f in self.facts], "\n   RNG", [(_atoms[i].id, str(P(_atoms[i])), str(self.rng[i])) for i in self.order])
        self.last = (r, s.model() if r == z3.sat else None, env)
        return r == z3.unsat
    def feasible(self):
        """False only if the facts are contradictory"""
        k = ("feas", self.fkey())
        r = self.memo.get(k)
        if r is None:
            t0 = time.time(); STATS["z3"] += 1
            s = z3.Solver(); s.set("timeout", self.z3timeout); env = Z3Env()
            self.z3facts(env, s)
            for f in env.flush(): s.add(f)
            r = self.memo[k] = (s.check() != z3.unsat)
            STATS["z3_time"] += time.time() - t0
        return r
    def model(self, extra=(), small=None, timeout=3000):
        s = z3.Solver(); s.set("timeout", timeout); env = Z3Env()
        self.z3facts(env, s)
        for c in extra: s.add(z3cond(c, env))
        if small:
            for a in list(env.syms.values()):
                pass
        for f in env.flush(): s.add(f)
        for name, lim in (small or {}).items():
            x = env.syms.get(name)
            if x is not None: s.add(x <= lim)
        if s.check() != z3.sat: return None
        m = s.model(); out = {}
        for n, x in env.syms.items():
            v = m.eval(x, model_completion=True)
            try: out[n] = v.as_long() if z3.is_int_value(v) else float(v.as_fraction())
            except Exception: pass
        return out

def arg_fact(a):
    """the cell at the position of the extremum holds the extremum"""
    b, n = a.args[1][0]
    return subst(a.args[3], {b: P(a)}), mkext(a.args[0][3:], [(_atoms[b], n)], a.args[2], a.args[3])
def arg_atoms(p, acc=None, bound=frozenset()):
    acc = {} if acc is None else acc
    if isinstance(p, bool): return acc
    if isinstance(p, tuple):
        for x in p[1:]: arg_atoms(x, acc)
        return acc
    for a in atoms_in(p):
        if a.kind == "ext" and a.args[0][:3] == "arg": acc[a.id] = a
        for x in a.args:
            if isinstance(x, Poly) or (isinstance(x, tuple) and a.kind == "ind"): arg_atoms(x, acc)
    return {i: a for i, a in acc.items() if not any(_atoms[j].args[0][:1] == "$" for j in a.fv if _atoms[j].kind == "sym")}

def product_lemmas(env):
    """products as opaque integers with the order axioms of multiplication by a non-negative factor (sound, incomplete)"""
    out = []
    for t, xs in list(env.prods.items()):
        if _atoms[t].sort != "int": continue
        T = z3atom(_atoms[t], env); xs = [x for x in xs if _atoms[x].sort == "int"]
        pr = {x: env.product(t, x) for x in xs}; v = {x: z3atom(_atoms[x], env) for x in xs}
        for x in xs:
            out.append(z3.Implies(z3.And(T >= 0, v[x] >= 0), pr[x] >= 0)); out.append(z3.Implies(z3.And(T >= 0, v[x] >= 1), pr[x] >= T)); out.append(z3.Implies(v[x] == 0, pr[x] == 0)); out.append(z3.Implies(v[x] == 1, pr[x] == T))
        for x in xs:
            for y in xs:
                if x != y: out.append(z3.Implies(z3.And(T >= 0, v[x] < v[y]), pr[x] + T <= pr[y])); out.append(z3.Implies(z3.And(T >= 0, v[x] + 1 < v[y]), pr[x] + 2 * T <= pr[y]))
            for y in xs:
                if x < y: out.append(z3.Implies(v[x] == v[y], pr[x] == pr[y])); out.append(z3.Implies(v[x] + 1 == v[y], pr[x] + T == pr[y])); out.append(z3.Implies(v[y] + 1 == v[x], pr[y] + T == pr[x]))
    return out + env.flush()
class Z3Env:
    lin = False
    def product(self, a, b):
        k = ("prod", min(a, b), max(a, b)); r = self.memo.get(k)
        if r is None: r = self.memo[k] = z3.Int("pr%d_%d" % (k[1], k[2]))
        return r
    def __init__(self): self.memo = {}; self.side = []; self.syms = {}; self.prods = {}
    def flush(self):
        r = self.side; self.side = []; return r
def z3num(c, real):
    c = Fr(c)
    if real: return z3.RealVal(str(c))
    return z3.IntVal(int(c)) if c.denominator == 1 else z3.RealVal(str(c))
def z3atom(a, env):
    r = env.memo.get(a.id)
    if r is not None: return r
    if a.kind == "sym":
        r = z3.Int(a.args[0]) if a.sort == "int" else z3.Real(a.args[0]); env.syms[a.args[0]] = r
    elif a.kind == "ind":
        r = z3.If(z3cond(a.args[0], env), z3.IntVal(1), z3.IntVal(0))
    elif a.kind in ("div", "mod"):
        p, q = z3poly(a.args[0], env), z3poly(a.args[1], env)
        d, m = mk("div", a.args, "int"), mk("mod", a.args, "int")
        zd, zm = z3.Int("at%d" % d.id), z3.Int("at%d" % m.id)
        env.memo[d.id] = zd; env.memo[m.id] = zm
        env.side.append(z3.Implies(q > 0, z3.And(p == (z3poly(P(d) * a.args[1], env) if env.lin else zd * q) + zm, zm >= 0, zm < q)))
        return env.memo[a.id]
    elif a.kind == "inv":
        p = z3poly(a.args[0], env, True); r = z3.Real("at%d" % a.id)
        env.side.append(z3.Implies(p != 0, p * r == 1))
    else:
        r = (z3.Int if a.sort == "int" else z3.Real)("at%d" % a.id)
        if a.kind == "fn":
            if a.args[0] in ("exp",): env.side.append(r > 0)
            if a.args[0] == "sqrt":
                x = z3poly(a.args[1], env, True); env.side.append(z3.Implies(x >= 0, z3.And(r >= 0, r * r == x)))
            if a.args[0] == "tanh": env.side.append(z3.And(r < 1, r > -1))
            if a.args[0] in ("sin", "cos"): env.side.append(z3.And(r <= 1, r >= -1))
            if a.args[0] == "cosh": env.side.append(r >= 1)
        if a.kind == "ext" and a.args[0][:3] == "arg":
            env.memo[a.id] = r
            b, n = a.args[1][0]; v, M = arg_fact(a)
            env.side.append(z3.And(r >= 0, r < z3poly(n, env)))
            env.side.append(z3poly(v, env) == z3poly(M, env))
        if a.kind == "read" and a.args[0] in DOMAIN:
            d = DOMAIN[a.args[0]]
            if d == 1: env.side.append(r > 0)
            elif d == 2: env.side.append(z3.And(r > -1, r < 1))
            elif d == 4: env.side.append(r > 1)
            elif d == 8: env.side.append(z3.And(r >= 0, r < 1))
            elif d == 5: env.side.append(z3.And(r > 0, r < 1))
            elif d == 6: env.side.append(z3.Or(r >= z3.Q(1, 64), r <= z3.Q(-1, 64)))
    env.memo[a.id] = r
    return r
def z3poly(p, env, real=False):
    real = real or not is_int_poly(p)
    ts = []
    for m, c in p.d.items():
        t = None
        cs = [i for i, e in m if _atoms[i].kind == "ind"] if len(m) > 2 else ()
        if cs and (env.lin or len(m) - len(cs) == 2):
            rest = z3poly(Poly({tuple(x for x in m if x[0] not in cs): c}), env, real)
            if env.lin:
                ts.append(z3.If(z3.And(*[z3cond(_atoms[i].args[0], env) for i in cs]), rest, z3num(0, real))); continue
        if len(m) == 2 and m[0][1] == 1 and m[1][1] == 1:
            env.prods.setdefault(m[0][0], set()).add(m[1][0]); env.prods.setdefault(m[1][0], set()).add(m[0][0])
            if env.lin and _atoms[m[0][0]].sort == "int" and _atoms[m[1][0]].sort == "int":
                t = env.product(m[0][0], m[1][0])
                if real: t = z3.ToReal(t)
                t = t if c == 1 else z3num(c, real) * t; ts.append(t); continue
        for i, e in m:
            x = z3atom(_atoms[i], env)
            if real and x.sort() == z3.IntSort(): x = z3.ToReal(x)
            if e < 0:
                k = ("inv", i); y = env.memo.get(k)
                if y is None:
                    y = z3.Real("iv%d" % i); env.memo[k] = y
                    env.side.append(z3.Implies(x != 0, x * y == 1))
                x = y; e = -e
            for _ in range(e): t = x if t is None else t * x
        if t is None: t = z3num(c, real)
        elif c != 1: t = z3num(c, real) * t
        ts.append(t)
    if not ts: return z3num(0, real)
    return ts[0] if len(ts) == 1 else z3.Sum(ts)
def z3cond(c, env):
    if c is True: return z3.BoolVal(True)
    if c is False: return z3.BoolVal(False)
    if c[0] == "<": return z3poly(c[1], env) < 0
    if c[0] == "=": return z3poly(c[1], env) == 0
    if c[0] == "not": return z3.Not(z3cond(c[1], env))
    a, b = z3cond(c[1], env), z3cond(c[2], env)
    return z3.And(a, b) if c[0] == "and" else z3.Or(a, b)

# ------------------------------------------------------------------ simplification under facts
def simp_cond(c, ctx=None, z=False):
    ctx = ctx or CTX
    if isinstance(c, bool) or ctx is None: return c
    if c[0] == "and": return conj(simp_cond(c[1], ctx, z), simp_cond(c[2], ctx, z))
    if c[0] == "or": return disj(simp_cond(c[1], ctx, z), simp_cond(c[2], ctx, z))
    if ctx.prove(c, z): return True
    if ctx.prove(neg(c), z): return False
    if c[0] == "not" and c[1][0] in ("and", "or"): return neg(simp_cond(c[1], ctx, z))
    return c

def case_eq(c, ctx, depth=0):
    """an equation between a constant and a value chosen by indicators is a condition on the indicators alone"""
    if isinstance(c, bool): return c
    if c[0] == "not": return neg(case_eq(c[1], ctx, depth))
    if c[0] != "=" or not is_int_poly(c[1]): return c
    p = c[1]
    a = next((_atoms[i] for m in p.d for i, _ in m if _atoms[i].kind == "ind"), None)
    if a is None or depth > 6:
        if ctx.prove(neg(c)): return False
        return True if ctx.prove(c) else c
    r = []
    for v, k in ((1, a.args[0]), (0, neg(a.args[0]))):
        s = ctx.snapshot()
        try:
            if ctx.prove(neg(k), False): r.append(None); continue
            ctx.assume(k)
            q = ZERO
            for m, co in p.d.items():
                t = P(co)
                for i, e in m: t = t * (P(v) if i == a.id else _powatom(_atoms[i], e))
                q = q + t
            x = case_eq(eq(q, 0), ctx, depth + 1)
        finally: ctx.restore(s)
        if not isinstance(x, bool) and _unresolved(x): return c
        r.append(x)
    if r[0] is None: return r[1]
    if r[1] is None: return r[0]
    return disj(conj(a.args[0], r[0]), conj(neg(a.args[0]), r[1]))
def _unresolved(x):
    if isinstance(x, bool): return False
    if x[0] == "=": return True
    return any(_unresolved(y) for y in x[1:] if not isinstance(y, Poly))

def _simp_polys(c, ctx, z, depth):
    if isinstance(c, bool): return c
    if c[0] == "<": return lt(simp(c[1], ctx, z, depth), 0)
    if c[0] == "=": return eq(simp(c[1], ctx, z, depth), 0)
    if c[0] == "not": return neg(_simp_polys(c[1], ctx, z, depth))
    a, b = (_simp_polys(x, ctx, z, depth) for x in c[1:])
    return conj(a, b) if c[0] == "and" else disj(a, b)

def simp(p, ctx=None, z=True, depth=0):
    """rewrite p using the facts: decided indicators become constants (also under sums)"""
    ctx = ctx or CTX
    hit = {}
    for a in atoms_in(p):
        if a.kind == "ind":
            c = a.args[0]
            r = simp_cond(c, ctx, z)
            if r is True: hit[a.id] = ONE
            elif r is False: hit[a.id] = ZERO
            elif z and (r2 := split_eqs(r, ctx)) != r: hit[a.id] = ONE if r2 is True else ZERO if r2 is False else ind(r2)
            elif depth < 8 and {"div", "mod", "ind"} & repr_kinds(r):
                r2 = _simp_polys(r, ctx, z, depth + 1)
                if r2 != r:
                    r2 = simp_cond(r2, ctx, z); hit[a.id] = ONE if r2 is True else ZERO if r2 is False else ind(r2)
        elif a.kind in ("sum", "ext") and depth < 8:
            s = ctx.snapshot()
            bs = a.args[0] if a.kind == "sum" else a.args[1]
            ren = {}; nb = []
            for b, n in bs:
                f = fresh("s"); ren[b] = f
                n2 = simp(subst(n, ren), ctx, z, depth + 1)
                ctx.index(f, 0, n2); nb.append((atom_of(f), n2))
            if a.kind == "sum":
                body = subst(a.args[1], ren)
                nb2 = simp(body, ctx, z, depth + 1)
                ctx.restore(s)
                if nb2 != body: hit[a.id] = mksum(nb, nb2)
            else:
                g = subst_cond(a.args[2], ren); body = subst(a.args[3], ren)
                g2 = simp_cond(g, ctx, z); ctx.assume(g2); b2 = simp(body, ctx, z, depth + 1)
                ctx.restore(s)
                if g2 != g or b2 != body: hit[a.id] = mkext(a.args[0], nb, g2, b2)
        elif a.kind in ("fn", "inv", "div", "mod", "read") and depth < 8:
            ar = [x for x in a.args if isinstance(x, Poly)]
            na = [simp(x, ctx, z, depth + 1) for x in ar]
            if na == ar and a.kind in ("div", "mod"):
                t = idiv(*na) if a.kind == "div" else imod(*na)
                if t != Poly({((a.id, 1),): 1}): hit[a.id] = t
            if na != ar:
                if a.kind == "fn": hit[a.id] = fn(a.args[0], *na, sort=a.sort)
                elif a.kind == "inv": hit[a.id] = inv(na[0])
                elif a.kind == "div": hit[a.id] = idiv(*na)
                elif a.kind == "mod": hit[a.id] = imod(*na)
                else: hit[a.id] = read(a.args[0], na[0], a.sort)
    if not hit: return _joindm(p)
    r = ZERO
    for m, c in p.d.items():
        t = P(c)
        for i, e in m:
            if i in hit:
                q = hit[i]
                if e < 0: q = inv(q); e = -e
                for _ in range(e): t = t * q
            else: t = t * Poly({((i, e),): 1})
        r = r + t
    return _joindm(r)

def _joindm(p):
    """q*(a div q) + (a mod q)  ->  a"""
    for a in atoms_in(p):
        if a.kind != "mod": continue
        x, q = a.args; d = idiv(x, q); n = len(p.d)
        for m, c in p.d.items():
            if (a.id, 1) in m:
                k = Poly({tuple(t for t in m if t[0] != a.id): c})
                r = p - k * (q * d + Poly({((a.id, 1),): 1})) + k * x
                if len(r.d) < n: return _joindm(r)
    return p

def clear_inv(p):
    """multiply by denominators until no inverse atoms / negative exponents are left (valid for p==0 goals)"""
    for _ in range(8):
        den = {}
        for m in p.d:
            for i, e in m:
                if e < 0: den[i] = max(den.get(i, 0), -e)
                elif _atoms[i].kind == "inv": den[("i", i)] = max(den.get(("i", i), 0), e)
        if not den: return p
        r = ZERO
        for m, c in p.d.items():
            t = P(c); have = dict(m)
            for k, e in den.items():
                if isinstance(k, tuple):
                    q = _atoms[k[1]].args[0]; h = have.pop(k[1], 0)
                    for _ in range(e - h): t = t * q
                else:
                    h = have.pop(k, 0)
                    t = t * _powatom(_atoms[k], e + h)
            t = t * Poly({tuple(sorted(have.items())): 1})
            r = r + t
        p = r
    return p

class Timeout(Exception): pass
def lits_in(p, acc=None):
    acc = set() if acc is None else acc
    for a in atoms_in(p):
        if a.kind == "ind": acc.add(a.id)
        elif a.kind in ("fn", "inv"):
            for x in a.args:
                if isinstance(x, Poly): lits_in(x, acc)
    return acc

def _litcost(i):
    t = repr_kinds(_atoms[i].args[0])
    return 2 if t & {"div", "mod"} else 1 if t & {"read", "fn", "inv", "sum", "ext", "fold"} else 0
def repr_kinds(c):
    if isinstance(c, bool): return set()
    if c[0] in ("<", "="):
        out = set(); todo = list(atoms_in(c[1]))
        while todo:
            a = todo.pop(); out.add(a.kind)
            for x in a.args:
                if isinstance(x, Poly): todo.extend(atoms_in(x))
        return out
    r = set()
    for x in c[1:]: r |= repr_kinds(x)
    return r
def _carry(ctx, f):
    """an equality fact that replaces an extent is applied to the other facts as well"""
    for m, c in f[1].d.items():
        if len(m) == 1 and m[0][1] == 1 and abs(Fr(c)) == 1:
            a = _atoms[m[0][0]]; rest = f[1] - Poly({m: c})
            if a.kind != "sym" or a.id in rest.fv(): return
            val = -rest * (Fr(1) / Fr(c))
            for g in list(ctx.facts):
                if g is f or isinstance(g, bool) or a.id not in cond_fv(g): continue
                h = subst_cond(g, {a.id: val})
                if h != g and not isinstance(h, bool): ctx.assume(h)
            return
def prove_zero(p, ctx, depth=0, budget=None):
    if depth: return _prove_zero(p, ctx, depth, budget)
    s = ctx.snapshot()
    try: return _prove_zero(p, ctx, depth, budget)
    finally: ctx.restore(s)
def pinned(f, ctx):
    """indices that the inequality f holds at an end of their range: [(index, value)]"""
    le_ = f[0] == "<"
    if not le_ and not (f[0] == "not" and f[1][0] == "<"): return []
    g = f[1] if le_ else f[1][1]; r = []
    if not is_int_poly(g) or len(g.d) > 4: return r
    for m, c in g.d.items():
        if c not in (1, -1) or len(m) != 1 or m[0][1] != 1 or m[0][0] not in ctx.rng: continue
        i = m[0][0]; lo, hi = ctx.rng[i]; rest = (g - Poly({m: c})) * -c      # i - rest has the sign c of g
        if i in rest.fv(): continue
        if le_ == (c == 1):                                                     # i < rest  or  i <= rest
            if (rest - 1 if le_ else rest) == lo: r.append((i, lo))
        elif hi is not None and (rest + 1 if le_ else rest) == hi - 1: r.append((i, hi - 1))
    return r
def _prove_zero(p, ctx, depth=0, budget=None):
    """returns True if p==0 follows from the facts"""
    budget = budget if budget is not None else [200]
    budget[0] -= 1
    if budget[0] < 0: return False
    if not p.d: STATS["norm"] += 1; return True
    if depth == 0:
        m = ctx.digits(p)
        if m:
            for f in list(ctx.facts):
                g = subst_cond(f, m)
                if g != f: ctx.assume(g)
            p = subst(p, m)
            if not p.d: STATS["norm"] += 1; return True
    q = clear_inv(p)
    if not q.d: STATS["norm"] += 1; return True
    q = simp(q, ctx)
    if depth == 0: q = split_sums(q, ctx)
    q = clear_inv(q)
    if not q.d: STATS["norm"] += 1; return True
    if depth == 0:
        for a in arg_atoms(q).values():
            v, M = arg_fact(a); b, n = a.args[1][0]
            q2 = subst_eq(q, v - M)
            if q2 is not None: q = q2
            ctx.assume(eq(v, M)); ctx.assume(le(0, P(a))); ctx.assume(lt(P(a), n))
    # an index that ranges over one value
    one = {}
    for i in ctx.order:
        lo, hi = ctx.rng[i]
        if hi is not None and i in q.fv() and ctx.prove(eq(hi - lo, 1)): one[i] = lo
    for f in ctx.facts:
        if not isinstance(f, bool): one.update((i, v) for i, v in pinned(f, ctx) if i in q.fv() and i not in one and not any(j in one for j in v.fv()))
    if one:
        for f in list(ctx.facts):
            g = subst_cond(f, one)
            if g != f: ctx.assume(g)
        q = clear_inv(simp(subst(q, one), ctx))
        if not q.d: STATS["norm"] += 1; return True
    # equality facts that bind an atom: substitute
    for f in ctx.facts:
        if not isinstance(f, bool) and f[0] == "=":
            q2 = subst_eq(q, f[1])
            if q2 is not None and q2 != q:
                if lits_in(q2): _carry(ctx, f)
                q = clear_inv(simp(q2, ctx))
                if not q.d: STATS["norm"] += 1; return True
    # an extent that can only be one
    if depth == 0 and any(not isinstance(f, bool) and f[0] == "=" for f in ctx.facts):
        one = {i: ONE for i in ctx.order if ctx.rng[i][1] is None and i in q.fv() and ctx.prove(eq(P(Poly({((i, 1),): 1})), 1))}
        if one:
            q = clear_inv(simp(subst(q, one), ctx))
            if not q.d: STATS["norm"] += 1; return True
    ls = lits_in(q)
    if len(ls) > 1 and any(_atoms[i].args[0][0] in "<=" and not is_int_poly(_atoms[i].args[0][1]) for i in ls) and _lra(q, ctx): return True
    if ls and depth < 8:
        lid = min(ls, key=lambda i: (_litcost(i), i))
        c = _atoms[lid].args[0]
        ok = True
        for cc in (c, neg(c)):
            s = ctx.snapshot(); ctx.assume(cc)
            if not isinstance(cc, bool) and cc[0] == "=":
                for mm, k in cc[1].d.items():
                    a = _atoms[mm[0][0]] if len(mm) == 1 and mm[0][1] == 1 and abs(k) == 1 else None
                    if a is not None and a.kind == "ext" and a.args[0][:3] == "arg":
                        val = -(cc[1] - Poly({mm: k})) * (Fr(1) / Fr(k)); b, n = a.args[1][0]
                        ctx.assume(eq(subst(a.args[3], {b: val}), mkext(a.args[0][3:], [(_atoms[b], n)], True, a.args[3])))
            try:
                if not ctx.feasible(): continue
                if not prove_zero(q, ctx, depth + 1, budget): ok = False; break
            finally: ctx.restore(s)
        if ok: return True
        return depth == 0 and _sumext(q, ctx)
    if depth == 0 or not ls:
        if ctx.prove(("=", q)): return True
        if depth == 0 or _SUMD[0] == 0: return _sumext(q, ctx)
    return False

def _lra(q, ctx):
    """q == 0 by linear arithmetic alone: every read, sum or function value an arbitrary real, every integer condition an arbitrary truth value"""
    reals = {}; bools = {}
    def mono(m, c):
        ds = []; rest = []
        for i, e in m:
            if _atoms[i].kind == "ind": ds.append(cnd(_atoms[i].args[0]))
            else: rest.append((i, e))
        v = z3.RealVal(str(Fr(c)))
        if rest:
            k = tuple(rest)
            if k not in reals: reals[k] = z3.Real("r%d" % len(reals))
            v = v * reals[k]
        return z3.If(z3.And(*ds), v, z3.RealVal(0)) if ds else v
    def poly(p): return z3.Sum([mono(m, c) for m, c in p.d.items()]) if p.d else z3.RealVal(0)
    def cnd(c):
        if isinstance(c, bool): return z3.BoolVal(c)
        if c[0] == "not": return z3.Not(cnd(c[1]))
        if c[0] in ("and", "or"): return (z3.And if c[0] == "and" else z3.Or)(cnd(c[1]), cnd(c[2]))
        if is_int_poly(c[1]):
            k = _argkey(c)
            if k not in bools: bools[k] = z3.Bool("b%d" % len(bools))
            return bools[k]
        return poly(c[1]) < 0 if c[0] == "<" else poly(c[1]) == 0
    s = z3.Solver(); s.set("timeout", 3000)
    s.add(poly(q) != 0)
    for f in ctx.facts:
        if not isinstance(f, bool) and not _intcond(f): s.add(cnd(f))
    t0 = time.time(); STATS["z3"] += 1
    try: r = s.check()
    except z3.Z3Exception: r = z3.unknown
    STATS["z3_time"] += time.time() - t0
    return r == z3.unsat
def _intcond(c):
    if isinstance(c, bool): return True
    if c[0] in ("<", "="): return is_int_poly(c[1])
    return all(_intcond(x) for x in c[1:])

def split_sums(p, ctx):
    """equations between flat positions inside sums, digit by digit"""
    rep = {}
    for a in atoms_in(p):
        if a.kind != "sum": continue
        bs, body = a.args; new = ZERO; ch = False
        s = ctx.snapshot()
        try:
            for b, n in bs: ctx.index(P(_atoms[b]), 0, n)
            for mono, c in body.d.items():
                t = P(c)
                for i, e in mono:
                    x = _atoms[i]
                    if x.kind == "ind" and x.args[0][0] == "=" and len(x.args[0][1].d) > 2:
                        q = simp(x.args[0][1], ctx); k = split_eq(q, ctx)
                        if k != x.args[0]: ch = True; t = t * ind(k); continue
                    t = t * _powatom(x, e)
                new = new + t
            if ch: rep[a.id] = mksum([(_atoms[b], n) for b, n in bs], new)
        finally: ctx.restore(s)
    if not rep: return p
    out = ZERO
    for m, c in p.d.items():
        t = P(c)
        for i, e in m: t = t * (rep[i] ** e if i in rep else _powatom(_atoms[i], e))
        out = out + t
    return out

_SUMD = [0]
def _sumext(q, ctx):
    """a combination of sums over one index set vanishes when it vanishes summand by summand"""
    if _SUMD[0] >= 2: return False
    def ranges(a):
        bs = a.args[0]; bset = {b for b, _ in bs}
        if any(n.fv() & bset for _, n in bs): return None
        return tuple(sorted((n.key(), b) for b, n in bs))
    groups = {}
    for m in q.d:
        sums = [(i, e) for i, e in m if _atoms[i].kind == "sum"]
        for i, e in sums:
            if e == 1 and ranges(_atoms[i]): groups.setdefault(tuple(k for k, _ in ranges(_atoms[i])), []).append(i)
    for key in sorted(groups, key=lambda k: -len(groups[k])):
        a0 = _atoms[groups[key][0]]; r0 = ranges(a0); ext = [dict((b, n) for b, n in a0.args[0])[b] for _, b in r0]
        new = [fresh("s") for _ in ext]; tot = ONE
        for n in ext: tot = tot * n
        body = ZERO; used = 0
        for m, c in q.d.items():
            cand = [i for i, e in m if e == 1 and _atoms[i].kind == "sum" and (lambda r: r and tuple(k for k, _ in r) == key)(ranges(_atoms[i]))]
            if cand:
                i = cand[0]; a = _atoms[i]; used += 1
                rest = Poly({tuple(x for x in m if x[0] != i): c})
                body = body + rest * tot * subst(a.args[1], {b: v for (_, b), v in zip(ranges(a), new)})
            else: body = body + Poly({m: c})
        if used < 1: continue
        if used < len(q.d) and not ctx.prove(lt(0, tot)): continue
        if used == len(q.d): 
            body = ZERO
            for m, c in q.d.items():
                i = [i for i, e in m if e == 1 and _atoms[i].kind == "sum" and (lambda r: r and tuple(k for k, _ in r) == key)(ranges(_atoms[i]))][0]
                body = body + Poly({tuple(x for x in m if x[0] != i): c}) * subst(_atoms[i].args[1], {b: v for (_, b), v in zip(ranges(_atoms[i]), new)})
        s = ctx.snapshot(); _SUMD[0] += 1
        try:
            for v, n in zip(new, ext): ctx.index(v, 0, n)
            if prove_zero(body, ctx): STATS["sumext"] = STATS.get("sumext", 0) + 1; return True
        finally: _SUMD[0] -= 1; ctx.restore(s)
    return False

def subst_eq(p, e):
    """e==0 is a fact; if e = c*atom + rest with atom not in rest, replace atom"""
    for m, c in e.d.items():
        if len(m) == 1 and m[0][1] == 1 and abs(Fr(c)) == 1:
            a = _atoms[m[0][0]]
            rest = e - Poly({m: c})
            if any(a.id == i for mm in rest.d for i, _ in mm): continue
            val = -rest * (Fr(1) / Fr(c))
            if a.kind == "sym":
                if a.id in rest.fv(): continue
                return subst(p, {a.id: val})
            if a.kind in ("read", "fn"):
                if not any(a.id == i for mm in p.d for i, _ in mm): continue
                r = ZERO
                for mm, cc in p.d.items():
                    t = P(cc)
                    for i, ex in mm:
                        if i == a.id and ex > 0:
                            for _ in range(ex): t = t * val
                        else: t = t * Poly({((i, ex),): 1})
                    r = r + t
                return r
    return None

def prove_equal(a, b, ctx): return prove_zero(P(a) - P(b), ctx)
