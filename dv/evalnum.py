"""Numeric evaluation of terms: decides whether a failed obligation is really false at a concrete input."""
import math, random
import terms as T
from terms import *
import native
from native import gen_value, mix, hs

class Undef(Exception): pass
class Env:
    def __init__(self, syms, seed, sets=(), budget=200000):
        self.syms = syms; self.seed = seed; self.sets = {(n, int(i)): v for n, i, v in sets}; self.budget = budget
        self.memo = {}
    def read(self, arr, i, sort):
        v = self.sets.get((arr, i))
        if v is not None: return v
        if arr.startswith("garbage"):
            x = mix(hs(arr) ^ mix((self.seed * 77 + i) & native.M64)) % 997
            return x + 3 if sort == "int" else (x + 3) / 7.0
        return gen_value(arr, i, self.seed, T.DOMAIN.get(arr, 0))
def ev(p, env):
    r = 0
    for m, c in p.d.items():
        t = float(c) if not isinstance(c, int) else c
        z = False
        # indicators first (lazy)
        for i, e in m:
            if T._atoms[i].kind == "ind" and not cond(T._atoms[i].args[0], env): z = True; break
        if z: continue
        for i, e in m:
            if T._atoms[i].kind == "ind": continue
            v = atom(T._atoms[i], env)
            if e == 1: t = t * v
            else:
                try: t = t * (v ** e)
                except (ZeroDivisionError, OverflowError): raise Undef()
        r = r + t
    return r
def cond(c, env):
    if isinstance(c, bool): return c
    k = c[0]
    if k == "<": return ev(c[1], env) < 0
    if k == "=": return abs(ev(c[1], env)) < 1e-12
    if k == "not": return not cond(c[1], env)
    if k == "and": return cond(c[1], env) and cond(c[2], env)
    return cond(c[1], env) or cond(c[2], env)
def atom(a, env):
    env.budget -= 1
    if env.budget < 0: raise Undef()
    k = a.kind
    if k == "sym":
        v = env.syms.get(a.id)
        if v is None:
            n = a.args[0]
            if a.sort == "int": v = mix(hs(n) ^ env.seed) % 1009
            else: v = gen_value(n, 0, env.seed, 0) + (1e-3 if "!" in n else 0)
            env.syms[a.id] = v
        return v
    if k == "read": return env.read(a.args[0], int(ev(a.args[1], env)), a.sort)
    if k == "ind": return 1 if cond(a.args[0], env) else 0
    if k in ("div", "mod"):
        x, y = ev(a.args[0], env), ev(a.args[1], env)
        if y == 0: raise Undef()
        x, y = int(x), int(y)
        return x // y if k == "div" else x % y
    if k == "inv":
        x = ev(a.args[0], env)
        if x == 0: raise Undef()
        return 1.0 / x
    if k == "fn": return func(a.args[0], [ev(x, env) for x in a.args[1:]])
    if k == "sum":
        tot = [0.0 if a.sort == "real" else 0]
        def rec(bs):
            if not bs: tot[0] = tot[0] + ev(a.args[1], env); return
            b, n = bs[0]; old = env.syms.get(b)
            for v in range(int(ev(n, env))): env.syms[b] = v; rec(bs[1:])
            if old is None: env.syms.pop(b, None)
            else: env.syms[b] = old
        rec(order(a.args[0])); return tot[0]
    if k == "ext" and a.args[0][:3] == "arg":
        b, n = a.args[1][0]; old = env.syms.get(b); best = None; pos = 0
        for v in range(int(ev(n, env))):
            env.syms[b] = v; x = ev(a.args[3], env)
            if best is None or (x > best if a.args[0] == "argmax" else x < best): best, pos = x, v
        if old is None: env.syms.pop(b, None)
        else: env.syms[b] = old
        if best is None: raise Undef()
        return pos
    if k == "ext":
        best = [None]
        def rec(bs):
            if not bs:
                if cond(a.args[2], env):
                    v = ev(a.args[3], env)
                    if best[0] is None or (v > best[0] if a.args[0] == "max" else v < best[0]): best[0] = v
                return
            b, n = bs[0]; old = env.syms.get(b)
            for v in range(int(ev(n, env))): env.syms[b] = v; rec(bs[1:])
            if old is None: env.syms.pop(b, None)
            else: env.syms[b] = old
        rec(order(a.args[1]))
        if best[0] is None: raise Undef()
        return best[0]
    if k == "fold":
        h, it, n, init, body = a.args
        x = ev(init, env); N = int(ev(n, env)); oh, oi = env.syms.get(h), env.syms.get(it)
        for v in range(N): env.syms[h] = x; env.syms[it] = v; x = ev(body, env)
        for q, o in ((h, oh), (it, oi)):
            if o is None: env.syms.pop(q, None)
            else: env.syms[q] = o
        return x
    raise Undef()
def order(bs):
    # binders whose range uses another binder come after it
    bs = list(bs); out = []
    while bs:
        for x in bs:
            if not any(y[0] in x[1].fv() for y in bs if y is not x): out.append(x); bs.remove(x); break
        else: return out + bs
    return out
def func(name, a):
    try:
        if name == "abs": return abs(a[0])
        if name == "cbrt": return math.copysign(abs(a[0]) ** (1 / 3), a[0])
        if name == "exp2": return 2.0 ** a[0]
        if name in ("nearbyint", "rint", "lrint", "llrint"): return float(round(a[0]))
        if name in ("round", "lround", "llround"): return math.copysign(math.floor(abs(a[0]) + 0.5), a[0])
        if name == "tgamma": return math.gamma(a[0])
        f = getattr(math, name, None)
        if f is not None: return float(f(*a))
    except (ValueError, OverflowError, ZeroDivisionError, TypeError): raise Undef()
    # uninterpreted: a fixed pseudo-random function
    h = hs(name)
    for x in a: h = mix(h ^ (hs("%.9g" % float(x))))
    return (h % 1000) / 250.0 - 2.0

def samples(ctx, dims, model, n=120):
    """assignments of the symbols that satisfy the path facts: (Env, description)"""
    rnd = random.Random(7)
    out = 0
    fixed = {}
    for k in range(n):
        seed = 1 + k
        syms = {}; sets = ()
        if model and k < 40:
            for name, v in model["syms"].items():
                for s in ("int", "real"):
                    a = T._tab.get(("sym", (name,), s))
                    if a is not None: syms[a.id] = v
            sets = model["sets"] if k % 2 == 0 else ()
        env = Env(syms, seed, sets, 60000)
        ok = True
        try:
            for i in ctx.order:
                if i in syms: continue
                lo, hi = ctx.rng[i]
                l = int(ev(lo, env))
                if hi is None: syms[i] = l + rnd.randrange(5)
                else:
                    h = int(ev(hi, env))
                    if h <= l: ok = False; break
                    syms[i] = rnd.randrange(l, h)
            if not ok: continue
            ok = all(cond(c, env) for c in ctx.facts)
        except Undef: continue
        if ok:
            out += 1
            yield env
            if out > 40: return
def describe(env, m):
    dims = {}; reals = {}
    for n, p in m.dims.items():
        try: dims[n] = int(ev(p, env))
        except Undef: pass
    for i, v in env.syms.items():
        a = T._atoms[i]
        if a.kind == "sym" and "!" not in a.args[0] and a.args[0] not in dims and not a.args[0].startswith("$"): reals[a.args[0]] = v
    return {"dims": dims, "reals": reals, "sets": [(n, i, v) for (n, i), v in env.sets.items() if not n.startswith("garbage")], "seed": env.seed}
def refute_eq(m, a, b, model=None):
    """a == b should hold; returns a description of an input where it does not"""
    for env in samples(m.ctx, m.dims, model):
        try: x, y = float(ev(P(a), env)), float(ev(P(b), env))
        except (Undef, OverflowError): continue
        if x != x or y != y or abs(x) > 1e200 or abs(y) > 1e200: continue
        if abs(x - y) > 1e-7 * max(1.0, abs(x), abs(y)): return describe(env, m)
    return None
def refute_cond(m, c, model=None):
    for env in samples(m.ctx, m.dims, model):
        try:
            if not cond(c, env): return describe(env, m)
        except (Undef, OverflowError): continue
    return None
