"""Symbolic executor for the JSON that /verif/tool/extract.cc prints for the real code of /repo.

Functions are executed path by path on symbolic inputs of unbounded size.  A loop whose trip count is symbolic is
replaced by its inferred inductive invariant: closed forms of the loop-carried scalars and, for arrays, the cells
written by all iterations (with non-interference obligations between iterations).
"""
import json
from fractions import Fraction as Fr
import terms as T
from terms import *

class Unsupported(Exception): pass
class PathAbort(Exception): pass
class Infeasible(Exception): pass
class Slow(Exception): pass
class Poison:
    """what a structural cell (object, container contents) holds at the start of a later loop iteration and after the loop: any use of it is refused"""
    def _no(self, *a, **k): raise Unsupported("loop changes structure (a value left by an earlier iteration is used)")
    __getattr__ = __iter__ = __len__ = __getitem__ = __bool__ = __eq__ = __ne__ = __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __contains__ = __call__ = __lt__ = __le__ = __gt__ = __ge__ = __neg__ = __int__ = __index__ = _no
    __hash__ = None
POISON = Poison()
def scalar(v): return isinstance(v, (Poly, Ptr, RPtr, bool)) or isinstance(v, tuple) and len(v) > 0 and isinstance(v[0], str)

MASK64 = (1 << 64) - 1

class Cell:
    __slots__ = ("v", "birth")
    def __init__(self, m, v): self.v = v; m.births += 1; self.birth = m.births
class ElemLV:
    __slots__ = ("seq", "off", "loc")
    def __init__(self, seq, off, loc=None): self.seq = seq; self.off = off; self.loc = loc
class Ptr:
    __slots__ = ("seq", "off")
    def __init__(self, seq, off): self.seq = seq; self.off = P(off)
    def __eq__(self, o): return isinstance(o, Ptr) and o.seq is self.seq and o.off == self.off
    def __hash__(self): return hash((id(self.seq), self.off))
class ArgPtr(Ptr):
    """position of an extremum: the element there is known as long as the array is unchanged"""
    __slots__ = ("snap", "val")
class KnownLV(ElemLV):
    __slots__ = ("snap", "val")
class Addr:
    __slots__ = ("lv",)
    def __init__(self, lv): self.lv = lv
    def __eq__(self, o): return isinstance(o, Addr) and o.lv is self.lv
    def __hash__(self): return id(self.lv)
class Null:
    def __repr__(self): return "null"
NULL = Null()
class FnVal:
    def __init__(self, fid): self.fid = fid
    def __eq__(self, o): return isinstance(o, FnVal) and o.fid == self.fid
    def __hash__(self): return hash(self.fid)
class Obj:
    __slots__ = ("rec", "f", "caps", "this", "birth")
    def __init__(self, m, rec): self.rec = rec; self.f = {}; self.caps = None; self.this = None; m.births += 1; self.birth = m.births
class Std:
    """library object: kind + named mutable parts"""
    __slots__ = ("kind", "c", "birth", "x")
    def __init__(self, m, kind, **parts):
        self.kind = kind; m.births += 1; self.birth = m.births; self.x = None
        self.c = {k: Cell(m, v) for k, v in parts.items()}
class OwnedCell(Cell):
    __slots__ = ("owner",)
class BackIns:
    """std::back_inserter"""
    def __init__(self, seq): self.seq = seq
def same(a, b):
    if a is b: return True
    if isinstance(a, Addr) and isinstance(b, Addr): return a.lv is b.lv
    if isinstance(a, tuple) and isinstance(b, tuple): return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return False
class RPtr:
    """reverse iterator over base pointer p (refers to p-1)"""
    __slots__ = ("p",)
    def __init__(self, p): self.p = p
    def __eq__(self, o): return isinstance(o, RPtr) and o.p == self.p
    def __hash__(self): return hash(("r", self.p))
class MapIt:
    __slots__ = ("mp", "pos")
    def __init__(self, mp, pos): self.mp = mp; self.pos = pos
    def __eq__(self, o): return isinstance(o, MapIt) and o.mp is self.mp and o.pos == self.pos
    def __hash__(self): return hash((id(self.mp), self.pos))
SC = (Poly, bool, tuple, Ptr, Addr, Null, FnVal, RPtr, MapIt, BackIns)
class Seq:
    __slots__ = ("items", "arr", "size", "elem", "birth", "name", "et")
    def __init__(self, m, elem, items=None, arr=None, size=None, et=None):
        self.items = OwnedCell(m, items); self.arr = OwnedCell(m, arr); self.items.owner = self; self.arr.owner = self; self.size = Cell(m, P(size if size is not None else len(items)))
        self.elem = elem; m.births += 1; self.birth = m.births; self.name = "s%d" % self.birth; self.et = et

# array values
class Base:
    __slots__ = ("name", "sort"); kind = "base"
    def __init__(self, name, sort): self.name = name; self.sort = sort
class Const:
    __slots__ = ("v",); kind = "const"
    def __init__(self, v): self.v = P(v)
class Pre:
    __slots__ = ("loop", "seq", "prev", "sort"); kind = "pre"
    def __init__(self, loop, seq, prev, sort): self.loop = loop; self.seq = seq; self.prev = prev; self.sort = sort
class Lay:
    __slots__ = ("prev", "op", "binders", "guard", "addr", "val"); kind = "lay"
    def __init__(self, prev, op, binders, guard, addr, val):
        self.prev = prev; self.op = op; self.binders = list(binders); self.guard = guard; self.addr = P(addr); self.val = P(val)

class Oblig:
    __slots__ = ("kind", "loc", "status", "how", "detail", "model")
    def __init__(self, kind, loc, status, how, detail="", model=None):
        self.kind = kind; self.loc = loc; self.status = status; self.how = how; self.detail = detail; self.model = model

class Machine:
    def __init__(self, prog):
        self.slowlocs = set()
        self.prog = prog; self.F = prog["functions"]; self.R = prog["records"]; self.G = prog["globals"]; self.TY = prog["types"]
        self.births = 0; self.journal = []; self.ctx = Context(); T.CTX = self.ctx
        self.dec = []; self.rec = 1; self.obligs = []; self.deferred = []; self.frames = []; self.globals = {}; self.loopid = 0
        self.loopdepth = 0; self.visited = set(); self.contract_used = set(); self.assumed = set()
        self.garb = 0; self.outs = []; self.steps = 0; self.maxsteps = 4000000; self.ghost = Std(self, "ghost"); self.strid = {}
        self.thread_mode = None; self.par = None; self.cores = None; self.deadline = None; self.dims = {}; self.fixed_dims = {}
        import stl; self.stl = stl
        self.intr = {}
    # ---------------------------------------------------------------- state
    def write(self, cell, v):
        self.journal.append((cell, cell.v)); cell.v = v
    def mark(self): return len(self.journal)
    def rollback(self, m):
        j = self.journal
        while len(j) > m:
            c, v = j.pop(); c.v = v
    # ---------------------------------------------------------------- types
    def ty(self, t): return self.TY[t]
    def tk(self, t): return self.TY[t]["k"]
    def strip(self, t):
        while self.TY[t]["k"] == "ref": t = self.TY[t]["e"]
        return t
    def recof(self, t):
        t = self.TY[self.strip(t)]
        return self.R[str(t["d"])] if t["k"] == "rec" else None
    def elemkind(self, t):
        k = self.TY[self.strip(t)]["k"]
        if k == "float": return "real"
        if k == "int": return "int"
        if k == "bool": return "bool"
        if k == "rec":
            r = self.recof(t)
            if r["n"] in ("std::byte", "std::thread"): return "int"
        return "obj"
    # ---------------------------------------------------------------- obligations
    def oblige(self, kind, c, loc, hard=True):
        """c must hold here; returns True if proved"""
        if c is True or not self.rec: return True      # exploring only: the recorded pass proves it
        z0, a0 = STATS["z3"], STATS["arith"]
        ok = self.ctx.prove(c)
        if self.rec:
            st, mod = "proved", None
            if not ok: st, mod = self.judge(c)
            o = Oblig(kind, loc, st, "z3" if STATS["z3"] > z0 else "arith", "" if ok else show_cond(c)[:300], mod)
            self.obligs.append(o)
            if st == "unknown" and self.loopdepth and self._lreads(c, None): self.deferred.append((o, c, list(self.ctx.facts), [(i, self.ctx.rng[i]) for i in self.ctx.order]))
        return ok
    def retry_deferred(self, L, it, A, okp, loc, alllay, sig):
        """obligations inside the loop that depend on cells read in the loop, once it is known what those cells hold"""
        todo, self.deferred = self.deferred, []
        for o, c, facts, rng in todo:
            if not self._lreads(c, L): self.deferred.append((o, c, facts, rng)); continue
            s = self.ctx.snapshot()
            try:
                for i, (lo, hi) in rng:
                    if i not in self.ctx.rng: self.ctx.index(P(T._atoms[i]), lo, hi)
                for f in facts[len(self.ctx.facts):]:
                    if isinstance(f, bool): continue
                    f = subst_cond(f, sig)
                    if not self._lreads(f, L): self.ctx.assume(f)
                try: c = self.resolve_lreads_cond(subst_cond(c, sig), L, it, A, okp, loc, alllay)
                except Unsupported: continue
                if self.ctx.prove(c): o.status = "proved"; o.detail = ""
                elif self._lreads(c, None): self.deferred.append((o, c, list(self.ctx.facts), [(i, self.ctx.rng[i]) for i in self.ctx.order]))
                else: o.status, o.model = self.judge(c)
            finally: self.ctx.restore(s)
    def judge(self, c):
        """an obligation that is not proved: refuted (false at a concrete reachable input) or unknown"""
        import evalnum, spec
        known = set(self.ctx.rng)
        for i in cond_fv(c):
            a = T._atoms[i]
            if i not in known and "!" in a.args[0]: return "unknown", None
        mod = None
        try: mod = spec.model_inputs(self, [neg(c)])
        except Exception: pass
        r = evalnum.refute_cond(self, c, mod)
        return ("refuted", r) if r is not None else ("unknown", None)
    def fail(self, kind, loc, detail=""):
        if self.rec:
            st, mod = self.judge(False)
            self.obligs.append(Oblig(kind, loc, st, "path", detail, mod))
    # ---------------------------------------------------------------- branching
    def decide(self, c):
        if isinstance(c, bool): return c
        c = simp_cond(c, self.ctx, True)
        if isinstance(c, bool): return c
        fr = self.dec[-1]
        pos = fr["pos"]
        if pos < len(fr["prefix"]): d = fr["prefix"][pos]
        else:
            d = True
            fr["alts"].append(fr["prefix"][:] + [False]); fr["prefix"].append(True)
        fr["pos"] = pos + 1
        cc = c if d else neg(c)
        self.ctx.assume(cc); fr["conds"].append(cc)
        if not self.ctx.feasible(): raise Infeasible()
        return d
    def explore(self, fn, maxpaths=600):
        """run fn on every feasible path; returns [(conds, finals{cell:value}, result)], state rolled back"""
        out = []; stack = [[]]
        while stack:
            prefix = stack.pop()
            if len(out) > maxpaths: raise Unsupported("too many paths")
            fr = {"prefix": list(prefix), "pos": 0, "alts": [], "conds": []}
            m = self.mark(); s = self.ctx.snapshot(); self.dec.append(fr); nf = len(self.frames)
            res = None; dead = False
            try: res = ("ok", fn())
            except PathAbort as e: res = ("abort", str(e))
            except Infeasible: dead = True
            finally:
                self.dec.pop(); del self.frames[nf:]
                finals = {}
                for c, _ in self.journal[m:]: finals[c] = c.v
                self.rollback(m); self.ctx.restore(s)
            stack.extend(fr["alts"])
            if not dead: out.append((conj(*fr["conds"]), finals, res))
        return out
    # ---------------------------------------------------------------- arrays
    def to_arr(self, seq):
        if seq.items.v is None: return
        if seq.elem not in ("int", "real", "bool"): raise Unsupported("symbolic access to a sequence of objects")
        a = Const(0)
        for i, c in enumerate(seq.items.v): a = Lay(a, "set", [], True, P(i), self.num(c.v))
        self.write(seq.arr, a); self.write(seq.items, None)
    def num(self, v):
        if isinstance(v, Poly): return v
        if isinstance(v, (bool, tuple)): return ind(v)
        if v is None: self.garb += 1; return fresh("uninit", "int")
        raise Unsupported("expected a number, got %r" % (v,))
    def new_arr_seq(self, elem, size, name=None, et=None):
        self.garb += 1
        return Seq(self, elem, None, Base(name or ("garbage#%d" % self.garb), "real" if elem == "real" else "int"), size, et)
    def read_arr(self, a, p):
        p = P(p)
        while True:
            k = a.kind
            if k == "base": return read(a.name, p, a.sort)
            if k == "const": return a.v
            if k == "pre":
                return P(mk("lread", (a.loop, a.seq.birth, p), a.sort))
            # layer
            sol = self.solve(a.binders, a.addr, p)
            if sol is None:
                if a.op == "acc":
                    ren, bs = self.rename(a.binders)
                    sn = self.ctx.snapshot()
                    try:
                        for b, n in bs: self.ctx.index(P(b), 0, n)
                        g = simp_cond(subst_cond(a.guard, ren), self.ctx, True); ad = subst(a.addr, ren)
                        m2 = self.ctx.digits(g if not isinstance(g, bool) else ZERO, ad, subst(a.val, ren))
                        if g is not True: self.ctx.assume(subst_cond(g, m2))
                        bs2 = []
                        for b, n in bs: bs2 += [(b, n)] if b.id not in m2 else [(T._atoms[i], self.ctx.rng[i][1]) for i in sorted(m2[b.id].fv() & set(self.ctx.order)) if self.ctx.rng[i][1] is not None and T._atoms[i].args[0][:2] in ("u!", "v!")]
                        g = subst_cond(g, m2) if not isinstance(g, bool) else g
                        q = simp(subst(ad, m2) - p, self.ctx)
                        body = subst(subst(a.val, ren), m2) * ind(conj(g, split_eq(q, self.ctx)))
                    finally: self.ctx.restore(sn)
                    return self.read_arr(a.prev, p) + mksum(bs2, body)
                raise Unsupported("cannot resolve array address %s = %s" % (show(a.addr), show(p)))
            asg, cond, free = sol
            cond = simp_cond(conj(cond, subst_cond(a.guard, asg)), self.ctx, True) if not free else simp_cond(cond, self.ctx, True)
            if cond is False: a = a.prev; continue
            if a.op == "set":
                v = subst(a.val, asg)
                if free:
                    ids = {b.id for b, _ in free}
                    g = subst_cond(a.guard, asg)
                    ne_ = conj(*[lt(0, n) for _, n in free])
                    if (v.fv() | cond_fv(g)) & ids:
                        raise Unsupported("several iterations write the same cell")
                    cond = simp_cond(conj(cond, g, ne_), self.ctx, True)
                if cond is True: return v
                return ite(cond, v, self.read_arr(a.prev, p))
            if a.op == "acc":
                g = subst_cond(a.guard, asg)
                ren, bs = self.rename(free)
                body = subst(subst(a.val, asg) * ind(conj(cond, g)), ren)
                return self.read_arr(a.prev, p) + (mksum(bs, body) if bs else body)
            if a.op in ("max", "min"):
                low = self.read_arr(a.prev, p)
                g = subst_cond(a.guard, asg); v = subst(a.val, asg)
                if not free:
                    c = lt(low, v) if a.op == "max" else lt(v, low)
                    return ite(conj(cond, g, c), v, low)
                ren, bs = self.rename(free)
                nonempty = conj(*[lt(0, n) for _, n in bs])
                if g is not True:
                    gg = subst_cond(g, ren)
                    if not self.ctx.prove(gg): raise Unsupported("guarded max over array")
                e = mkext(a.op, bs, True, subst(v, ren))
                e = self.ext_join(a.op, low, e)
                return ite(simp_cond(conj(cond, nonempty), self.ctx), e, low)
            raise Unsupported("layer " + a.op)
    def ext_join(self, kind, c0, M):
        if c0.is_const():
            c = float(c0.const())
            if kind == "max" and c < -1e37: return M
            if kind == "min" and c > 1e37: return M
        return ite(lt(c0, M), M, c0) if kind == "max" else ite(lt(M, c0), M, c0)
    def rename(self, binders):
        ren = {}; bs = []
        for b, n in binders:
            f = fresh("b"); ren[b.id] = f; bs.append((atom_of(f), subst(P(n), ren)))
        return ren, bs
    def solve(self, binders, addr, p):
        """binders b with addr(b) == p: (assignment, side condition, free binders) or None"""
        if not binders:
            return {}, eq(addr, p), []
        ids = {b.id: P(n) for b, n in binders}
        S = {}; base = ZERO
        # a position of an extremum that depends on the binders: one more digit, checked afterwards
        digits = {}
        for m in addr.d:
            for i, e in m:
                a = T._atoms[i]
                if a.kind == "ext" and a.args[0][:3] == "arg" and a.fv & ids.keys() and e == 1 and i not in digits and not a.args[1][0][1].fv() & ids.keys(): digits[i] = fresh("dg")
        if digits:
            addr = self.replace_atoms(addr, digits); nb = list(binders) + [(atom_of(d), T._atoms[i].args[1][0][1]) for i, d in digits.items()]
            sol = self.solve(nb, addr, p)
            if sol is None: return None
            asg, cond, free = sol
            for i, d in digits.items():
                x = asg.pop(atom_of(d).id, None)
                if x is None: return None
                cond = conj(cond, eq(x, subst(P(T._atoms[i]), asg)))
            return asg, cond, free
        for m, c in addr.d.items():
            hit = [(i, e) for i, e in m if T._atoms[i].fv & ids.keys()]
            if not hit: base = base + Poly({m: c}); continue
            if len(hit) != 1 or hit[0][1] != 1 or hit[0][0] not in ids: return None
            b = hit[0][0]
            S[b] = S.get(b, ZERO) + Poly({tuple(x for x in m if x[0] != b): c})
        free = [(b, n) for b, n in binders if b.id not in S or not S[b.id].d]
        used = [b for b, _ in binders if b.id in S and S[b.id].d]
        ctx = self.ctx
        negs = {}
        for b in used:
            if ctx.prove(lt(S[b.id], 0), False):      # decreasing index: b := n-1-b
                negs[b.id] = True; base = base + S[b.id] * (ids[b.id] - 1); S[b.id] = -S[b.id]
        # order by stride, largest first
        rest = list(used); order = []
        while rest:
            top = None
            for x in rest:
                if all(y is x or self._dominates(S, ids, x, y) for y in rest): top = x; break
            if top is None: return None
            order.append(top); rest.remove(top)
        # a constant part of the address that shifts the digits: base = sum of off*stride, digit = binder + off
        if base.d and order:
            off = {}; rem = base; good = True
            for x in order:
                if not rem.d: off[x.id] = ZERO; continue
                q, rem2 = polydivmod(rem, S[x.id]) if S[x.id] != ONE else (rem, ZERO)
                if rem2.d and not ctx.prove(le(0, rem2), False):
                    q = q - ONE; rem2 = rem2 + S[x.id]
                    if not ctx.prove(le(0, rem2), False): good = False; break
                if not ctx.prove(le(0, q), False): good = False; break
                off[x.id] = q; rem = rem2
            if good and any(o.d for o in off.values()):
                for i, x in enumerate(order):
                    s = rem
                    for y in order[i + 1:]: s = s + S[y.id] * (ids[y.id] - 1 + off[y.id])
                    if S[x.id] != ONE and not ctx.prove(lt(s, S[x.id]), False): good = False; break
            else: good = False
            if good and (not rem.d or S[order[-1].id] != ONE):
                r = P(p); asg = {}; cond = True
                for x in order:
                    s = S[x.id]
                    if s == ONE: q, r = r, ZERO
                    else:
                        q, rm = polydivmod(r, s)
                        if not (ctx.prove(le(0, rm)) and ctx.prove(lt(rm, s))): q, rm = T._divmod(r, s)
                        r = rm
                    asg[x.id] = q - off[x.id]
                    cond = conj(cond, le(off[x.id], q), lt(q, off[x.id] + ids[x.id]))
                cond = conj(cond, eq(r, rem))
                if any(n.fv() & ids.keys() for n in ids.values()): cond = subst_cond(cond, asg)
                for b in list(asg):
                    if negs.get(b): asg[b] = ids[b] - 1 - asg[b]
                free = [(b, subst(P(n), asg)) for b, n in free]
                return asg, cond, free
        # injectivity: sum of the smaller parts < stride
        for i, x in enumerate(order):
            s = ZERO
            for y in order[i + 1:]: s = s + S[y.id] * (ids[y.id] - 1)
            if i + 1 < len(order) and not ctx.prove(lt(s, S[x.id])):
                return None
        r = P(p) - base; asg = {}; cond = True
        for x in order:
            s = S[x.id]
            if s == ONE: q, r = r, ZERO
            else:
                q, rem = polydivmod(r, s)
                # let the remainder stay in [0,s)
                if not (ctx.prove(le(0, rem)) and ctx.prove(lt(rem, s))):
                    q2, rem2 = T._divmod(r, s)
                    q, rem = q2, rem2
                r = rem
            asg[x.id] = q
            cond = conj(cond, le(0, q), lt(q, ids[x.id]))
        cond = conj(cond, eq(r, 0))
        # ranges that depend on other binders
        if any(n.fv() & ids.keys() for n in ids.values()): cond = subst_cond(cond, asg)
        for b in list(asg):
            if negs.get(b): asg[b] = ids[b] - 1 - asg[b]
        free = [(b, subst(P(n), asg)) for b, n in free]
        return asg, cond, free
    def _dominates(self, S, ids, x, y):
        if self.ctx.prove(le(S[y.id], S[x.id]), False):
            if S[y.id] == S[x.id]:
                return self.ctx.prove(le(ids[y.id], 1), False)
            return True
        if S[x.id].is_const() and S[y.id].is_const(): return False
        dx = max((sum(e for _, e in m) for m in S[x.id].d)); dy = max((sum(e for _, e in m) for m in S[y.id].d))
        return False
    # element access
    def check_bounds(self, seq, off, loc):
        self.oblige("index within bounds", conj(le(0, off), lt(off, seq.size.v)), loc)
    def concrete_index(self, off):
        off = P(off)
        return int(off.const()) if off.is_const() else None
    def load(self, lv):
        if isinstance(lv, Cell):
            return lv.v
        if isinstance(lv, ElemLV):
            seq = lv.seq
            if isinstance(lv, KnownLV) and seq.arr.v is lv.snap: return lv.val
            if seq.items.v is not None:
                i = self.concrete_index(lv.off)
                if i is None:
                    self.to_arr(seq)
                else:
                    if not (0 <= i < len(seq.items.v)):
                        self.fail("index within bounds", lv.loc, "index %s of %d" % (i, len(seq.items.v))); raise PathAbort("out of bounds")
                    x = seq.items.v[i]
                    return x.v if isinstance(x, Cell) else x
            self.check_bounds(seq, lv.off, lv.loc)
            v = self.read_arr(seq.arr.v, lv.off)
            if seq.elem == "bool": return self.tobool(v)
            return v
        return lv
    def store(self, lv, v):
        if isinstance(lv, Cell): self.write(lv, v); return
        if isinstance(lv, ElemLV):
            seq = lv.seq
            if seq.items.v is not None:
                i = self.concrete_index(lv.off)
                if i is None: self.to_arr(seq)
                else:
                    if not (0 <= i < len(seq.items.v)):
                        self.fail("index within bounds", lv.loc, "index %s of %d" % (i, len(seq.items.v))); raise PathAbort("out of bounds")
                    self.write(seq.items.v[i], v); return
            self.check_bounds(seq, lv.off, lv.loc)
            self.write(seq.arr, Lay(seq.arr.v, "set", [], True, lv.off, self.num(v))); return
        raise Unsupported("store to %r" % (lv,))
    def tobool(self, v):
        if isinstance(v, (bool, tuple)): return v
        if isinstance(v, Poly):
            if v.is_const(): return v.const() != 0
            a = atom_of(v)
            if a is not None and a.kind == "ind": return a.args[0]
            q = ONE - v; a = atom_of(q)
            if a is not None and a.kind == "ind": return neg(a.args[0])
            return ne(v, 0)
        if v is NULL: return False
        if isinstance(v, (Ptr, Addr, FnVal, Obj, Std, Seq)): return True
        raise Unsupported("to bool %r" % (v,))
    # ---------------------------------------------------------------- loops
    def run_loop(self, cond, body, inc, loc, par=None):
        n = 0; m0 = self.mark(); s0 = self.ctx.snapshot(); no = len(self.obligs); rec = self.rec; nd = len(self.dec); nf = len(self.frames); tried = False; peeled = False
        fr = self.dec[-1]; pos0 = fr["pos"]
        while True:
            self.tick(); m = self.mark()
            if n < 2 and not tried and fr["pos"] == pos0 and self.probe_cond(cond) is None:      # the condition has cases: one loop if it can be summarised, else one case at a time
                tried = True
                self.rollback(m0); self.ctx.restore(s0); del self.obligs[no:]; n = 0
                try: return self.sym_loop(cond, body, inc, loc, par=par)
                except Unsupported as x:
                    if 'time budget' in str(x): raise
                    self.rollback(m0); self.ctx.restore(s0); del self.obligs[no:]; self.rec = rec; del self.dec[nd:]; del self.frames[nf:]; m = self.mark()
            c = cond()
            if isinstance(c, Poly): c = self.tobool(c)
            if not isinstance(c, bool):
                self.rollback(m)                       # the summary evaluates the condition itself, with its side effects
                if par is not None or peeled: return self.sym_loop(cond, body, inc, loc, par=par)
                s1 = self.ctx.snapshot(); no1 = len(self.obligs); nd1 = len(self.dec); nf1 = len(self.frames); pos1 = fr["pos"]
                try: return self.sym_loop(cond, body, inc, loc, par=par)
                except Unsupported as x:                # a flag that the first iteration settles: first iteration on its own, then the rest
                    if not ('loop-carried pointer/flag' in str(x) or 'loop changes structure' in str(x)) or fr["pos"] != pos1: raise
                    self.rollback(m); self.ctx.restore(s1); del self.obligs[no1:]; self.rec = rec; del self.dec[nd1:]; del self.frames[nf1:]
                    peeled = True; c = self.decide(self.tobool(cond()))
            if not c: return None
            sig = body()
            if sig is not None:
                if sig[0] == "break": return None
                if sig[0] == "ret": return sig
            if inc: inc()
            n += 1
            if n == 8 and not tried and par is None and fr["pos"] == pos0 and not peeled:     # a constant but long trip count: one summary instead of many copies
                tried = True; self.rollback(m0); self.ctx.restore(s0); del self.obligs[no:]
                try: return self.sym_loop(cond, body, inc, loc, par=par)
                except Unsupported as x:
                    if 'time budget' in str(x): raise
                    self.rollback(m0); self.ctx.restore(s0); del self.obligs[no:]; self.rec = rec; del self.dec[nd:]; del self.frames[nf:]; n = 0
            if n > 5000: raise Unsupported("concrete loop too long at %s" % loc)
    def probe_cond(self, cond):
        """True if the loop condition can be evaluated without a case distinction (state unchanged)"""
        m = self.mark(); s = self.ctx.snapshot(); nf = len(self.frames); fr = {"prefix": [], "pos": 0, "alts": [], "conds": []}
        no = len(self.obligs); rec, self.rec = self.rec, 0; self.dec.append(fr)
        try: cond()
        except (PathAbort, Infeasible): return True
        finally:
            self.dec.pop(); self.rollback(m); self.ctx.restore(s); del self.frames[nf:]; del self.obligs[no:]; self.rec = rec
        return True if fr["pos"] == 0 else None
    def havoc_val(self, v, hint):
        if isinstance(v, Poly): return fresh("h_" + hint, "int" if is_int_poly(v) else "real")
        if isinstance(v, RPtr): return RPtr(self.havoc_val(v.p, hint))
        if isinstance(v, Ptr): return Ptr(v.seq, fresh("ho_" + hint))
        if isinstance(v, (bool, tuple)): return ("=", fresh("hb_" + hint))
        raise Unsupported("loop-carried value of kind %s" % type(v).__name__)
    def sym_loop(self, cond, body, inc, loc, known_n=None, index_cell=None, par=None):
        """summarise a loop with symbolic trip count"""
        self.loopid += 1; L = self.loopid
        stamp = self.births; self.loopdepth += 1
        try:
            if loc is not None and loc not in self.slowlocs:
                m = self.mark(); s = self.ctx.snapshot(); no = len(self.obligs); rec = self.rec; nd = len(self.dec); nf = len(self.frames)
                try: return self._sym_loop(cond, body, inc, loc, L, stamp, True, par)
                except (Slow, Unsupported) as x:
                    if isinstance(x, Unsupported) and 'time budget' in str(x): raise
                    self.rollback(m); self.ctx.restore(s); del self.obligs[no:]; self.rec = rec; del self.dec[nd:]; del self.frames[nf:]; self.slowlocs.add(loc)
            return self._sym_loop(cond, body, inc, loc, L, stamp, False, par)
        finally: self.loopdepth -= 1
    def _iter(self, cond, body, inc):
        def go():
            k = self.dec[-1]["pos"]
            c = cond()
            if isinstance(c, Poly): c = self.tobool(c)
            self.ctx.assume(c)
            if c is False or self.dec[-1]["pos"] != k and not self.ctx.feasible(): raise Infeasible()
            sig = body()
            if sig is not None and sig[0] in ("break", "ret"): return sig[0]
            if inc: inc()
            return c
        return go
    def _sym_loop(self, cond, body, inc, loc, L, stamp, fast=False, par=None):
        """fast: the loop-carried cells and steps are guessed from one iteration; the generic iteration below confirms them or raises Slow"""
        ctx = self.ctx
        seqs = {}
        W = []; A = []; Q = []       # scalars, arrays, structure (objects, contents of containers)
        self.rec, saved = 0, self.rec
        sortreal = set()
        havs = {}
        try:
            # ---- discovery of the loop-carried state
            for rnd in range(8):
                m = self.mark(); s = ctx.snapshot()
                havs = {}
                for c in W:
                    h = self.havoc_val(c.v if c not in sortreal else fn("dummyreal"), "%d" % c.birth); havs[c] = h; self.write(c, h)
                for sq in A: self.write(sq.arr, Pre(L, sq, sq.arr.v, "real" if sq.elem == "real" else "int"))
                for c in Q: self.write(c, POISON)
                self.born = stamp
                try: paths = self.explore(self._iter(cond, body, inc))
                finally: ctx.restore(s); self.rollback(m)
                new = False
                for pc, fin, res in paths:
                    for c, v in fin.items():
                        if c.birth > stamp: continue
                        if isinstance(v, (Base, Const, Pre, Lay)):
                            if not any(sq.arr is c for sq in A):
                                sq = self._seq_of(c, v)
                                if sq is None: raise Unsupported("array identity in loop at %s" % loc)
                                A.append(sq); new = True
                        elif c in Q: continue
                        elif not scalar(v) or c.v is not None and not scalar(c.v):
                            if v is c.v or type(v) is type(c.v) and isinstance(v, (Addr, tuple)) and same(v, c.v): continue
                            if par is not None or any(c is x for x in self.threadcaps): raise Unsupported("loop changes structure at %s (%s)" % (loc, type(v).__name__))
                            if c in W: W.remove(c)
                            Q.append(c); new = True
                        elif c not in W:
                            if isinstance(v, Poly) and isinstance(c.v, Poly) and v == c.v: continue
                            W.append(c); new = True
                        if isinstance(v, Poly) and isinstance(havs.get(c, c.v), Poly) and not is_int_poly(v) and is_int_poly(havs.get(c, c.v)) and c not in sortreal and c.birth <= stamp:
                            sortreal.add(c); new = True
                if not new: break
                if fast:
                    if sortreal or any(res[0] != "ok" or res[1] in ("break", "ret") for pc, fin, res in paths): raise Slow()
                    havs = {c: self.havoc_val(c.v, "%d" % c.birth) for c in W}; break
            else: raise Unsupported("loop state does not stabilise at %s" % loc)
            for pc, fin, res in paths:
                if res[0] == "ok" and res[1] in ("break", "ret"): raise Unsupported("early exit from a symbolic loop at %s" % loc)
            okp = [x for x in paths if x[2][0] == "ok"]
            if not okp:
                # every path aborts on the first iteration
                c = cond()
                if self.decide(c): raise PathAbort("abort in loop")
                return None
            # ---- induction variables
            steps = {}
            hsyms = set()
            for h in havs.values(): hsyms |= self._val_fv(h)
            for c in W:
                h = c.v if fast else havs[c]; d = None
                if fast and not (isinstance(h, (Ptr, RPtr)) or isinstance(h, Poly) and is_int_poly(h)): continue
                for pc, fin, res in okp:
                    v = fin.get(c, h)
                    dd = self._delta(v, h)
                    if fast and dd is not None and not is_int_poly(dd): dd = None
                    if dd is None or (dd.fv() & hsyms) or self._has_local(dd, L, stamp): d = None; break
                    if d is None: d = dd
                    elif d != dd: d = None; break
                if d is not None: steps[c] = d
            K = [c for c in W if isinstance(c.v, bool) and all(fin.get(c, c.v) is c.v for pc, fin, res in okp)]     # flags that every iteration leaves as it found them
            it = fresh("it")
            closed = {}
            def closed_at(c, i):
                v = init[c]
                if isinstance(v, RPtr): return RPtr(Ptr(v.p.seq, v.p.off + steps[c] * i))
                if isinstance(v, Ptr): return Ptr(v.seq, v.off + steps[c] * i)
                if v is None: raise Unsupported("uninitialised induction variable")
                return v + steps[c] * i
            init = {c: c.v for c in W}
            # trip count from the condition in closed form
            m = self.mark(); s = ctx.snapshot()
            for c in W: self.write(c, closed_at(c, it) if c in steps else c.v if c in K else havs[c])
            for sq in A: self.write(sq.arr, Pre(L, sq, sq.arr.v, "real" if sq.elem == "real" else "int"))
            for c in Q: self.write(c, POISON)
            ctx.index(it, 0, None)
            def once():
                c = cond()
                return self.tobool(c) if isinstance(c, Poly) else c
            try: res = self.explore(once)
            finally: ctx.restore(s); self.rollback(m)
            if any(r[0] != "ok" for pc, fin, r in res): raise Unsupported("loop condition with cases at %s" % loc)
            exits = [conj(pc, neg(r[1])) for pc, fin, r in res if r[1] is not True]
            if len({r[1] for pc, fin, r in res}) == 1: cnd = res[0][2][1]
            elif len(exits) == 1: cnd = neg(exits[0])
            else: raise Unsupported("loop condition with cases at %s" % loc)
        finally: self.rec = saved
        if cnd is False:
            if fast: raise Slow()
            return None
        n = self.trip(cnd, it, loc)
        if n is None: return None
        # ---- generic iteration
        s = ctx.snapshot()
        ctx.index(it, 0, n)
        m = self.mark()
        for c in W: self.write(c, closed_at(c, it) if c in steps else c.v if c in K else havs[c])
        for sq in A: self.write(sq.arr, Pre(L, sq, sq.arr.v, "real" if sq.elem == "real" else "int"))
        for c in Q: self.write(c, POISON)
        try: paths = self.explore(self._iter(cond, body, inc))
        finally: self.rollback(m)
        okp = []
        for pc, fin, res in paths:
            if fast:
                if res[0] == "ok" and res[1] in ("break", "ret"): raise Slow()
                for c, v in fin.items():
                    if c.birth > stamp: continue
                    if isinstance(v, (Base, Const, Pre, Lay)):
                        if not any(sq.arr is c for sq in A): raise Slow()
                    elif c in Q: pass
                    elif c not in W: raise Slow()
                    elif c not in steps and isinstance(v, Poly) and isinstance(havs[c], Poly) and not is_int_poly(v) and is_int_poly(havs[c]): raise Slow()
            if res[0] == "abort":
                self.fail("no abort inside loop", loc, "%s under %s" % (res[1], show_cond(pc)[:200]))
            elif res[1] in ("break", "ret"): raise Unsupported("early exit from a symbolic loop at %s" % loc)
            else: okp.append((pc, fin))
        if not okp: ctx.restore(s); raise PathAbort("abort in loop")
        W2 = [c for c in W if c not in steps and c not in K]
        for c in K:
            if any(fin.get(c, c.v) is not c.v for pc, fin in okp):
                if fast: raise Slow()
                raise Unsupported("loop-carried pointer/flag at %s" % loc)
        for c in steps:
            for pc, fin in okp:
                v = fin.get(c)
                want = closed_at(c, it + 1)
                if v is None:
                    if steps[c].d:
                        if fast: raise Slow()
                        raise Unsupported("induction variable not updated")
                elif self._delta(v, want) is None or self._delta(v, want).d:
                    if fast: raise Slow()
                    raise Unsupported("induction check failed at %s" % loc)
        for c in W:
            if any(c is x for x in self.threadcaps): self.fail("no data race: a thread does not refer to a variable of the loop that starts it", loc, "captured by reference and changed while the thread may run")
        if par is not None:
            for c in W:
                if c is not par: self.fail("no data race: iterations that run in parallel share no variable", loc, "a variable is written by every iteration of a parallel loop")
            self.proved_("no data race: iterations that run in parallel share no variable", loc)
        # ---- other scalars
        sig = {}      # havoc atom id -> value at iteration `it`
        post = {}
        hs = {}
        for c in W2:
            if not isinstance(havs[c], Poly): 
                if isinstance(havs[c], (bool, tuple)) and self._bool_last(c, okp, havs, it, n, init, post, sig): continue
                raise Unsupported("loop-carried pointer/flag at %s" % loc)
            hs[c] = atom_of(havs[c])
        pend = [c for c in W2 if c in hs]
        Fv = {}
        for c in pend:
            v = None
            for pc, fin in reversed(okp):
                x = fin.get(c, havs[c]); x = self.num(x)
                v = x if v is None else ite(pc, x, v)
            Fv[c] = v
        lread_ids = lambda p: self._lreads(p, L)
        while pend:
            prog = False
            for c in list(pend) if len(pend) > 1 else []:
                am = self._argext(c, pend, Fv, hs, init, it, n)
                if am is not None:
                    c1, kind, v1 = am
                    r = self.ext_closed(kind, v1, it, n, self.num(init[c1])); sig[hs[c1].id], post[c1] = r
                    j = fresh("j"); ja = atom_of(j); vj = subst(v1, {atom_of(it).id: j})
                    A1 = lambda up: mkext("arg" + kind, [(ja, up)], True, vj)
                    sig[hs[c].id] = ite(lt(0, it), A1(it), self.num(init[c])); post[c] = A1(n) if ctx.prove(lt(0, n)) else ite(lt(0, n), A1(n), self.num(init[c]))
                    pend.remove(c); pend.remove(c1); prog = True; break
            for c in list(pend):
                F = subst(Fv[c], sig)
                others = {hs[o].id for o in pend if o is not c}
                if F.fv() & others: continue
                if lread_ids(F): F = self.resolve_lreads(F, L, it, A, okp, loc)
                r = self.classify(F, hs[c], it, n, init[c] if init[c] is not None else ZERO, c)
                if r is None: continue
                pre, pst = r
                sig[hs[c].id] = pre; post[c] = pst; pend.remove(c); prog = True
            if not prog: raise Unsupported("loop-carried recurrence not in a supported form at %s" % loc)
        # ---- arrays
        newarr = {}
        alllay = {}
        for sq in A:
            lays = []
            for pc, fin in okp:
                a = fin.get(sq.arr)
                if a is None: continue
                chain = []
                while not (a.kind == "pre" and a.loop == L):
                    if a.kind != "lay": raise Unsupported("array replaced inside loop at %s" % loc)
                    chain.append(a); a = a.prev
                g = subst_cond(pc, sig)
                for l in reversed(chain):
                    lays.append([l.op, l.binders and [(b, subst(P(x), sig)) for b, x in l.binders] or [], conj(g, subst_cond(l.guard, sig)), subst(l.addr, sig), subst(l.val, sig), len(lays), id(pc)])
            alllay[sq] = self._merge_paths(lays, okp)
        for sq in A:
            lays = alllay[sq]
            # a store that the same iteration overwrites unconditionally is dead
            dead = [i for i, l in enumerate(lays) if l[0] == "set" and not l[1] and any(x[0] == "set" and not x[1] and x[6] == l[6] and x[3] == l[3] and (x[2] is True or x[2] == l[2]) for x in lays[i + 1:])]
            lays = alllay[sq] = [l for i, l in enumerate(lays) if i not in dead]
            for i, l in enumerate(lays):
                if l[0] == "set" and all(self._apart(x, l) for x in lays[:i] if x[6] == l[6]): self._opify(l, L, sq, it)
        if self.deferred: self.retry_deferred(L, it, A, okp, loc, alllay, sig)
        for sq in A:
            for l in alllay[sq]: 
                sb = ctx.snapshot()
                for b, x in l[1]: ctx.index(P(b), 0, x)
                if par is not None: self.race_check(l, alllay, it, n, L, sq, loc)
                try:
                    l[2] = self.resolve_lreads_cond(l[2], L, it, A, okp, loc, alllay)
                    ctx.assume(l[2])
                    l[4] = self.resolve_lreads(l[4], L, it, A, okp, loc, alllay)
                    l[3] = self.resolve_lreads(l[3], L, it, A, okp, loc, alllay)
                finally: ctx.restore(sb)
        for sq in A: newarr[sq] = self.fission(alllay[sq], it, n, sq, loc)
        ctx.restore(s)
        # ---- post state
        for c in Q: self.write(c, POISON)
        for c in steps: self.write(c, closed_at(c, n))
        for c in W2: self.write(c, post[c])
        for sq in A:
            a = sq.arr.v
            for op, bs, g, ad, v in newarr[sq]: a = Lay(a, op, bs, g, ad, v)
            self.write(sq.arr, a)
        cond()    # side effects of the final (false) test
        return None
    def _bool_last(self, c, okp, havs, it, n, init, post, sig):
        """a flag that every iteration leaves at the value it had before the loop"""
        h = havs[c]
        if not isinstance(init[c], bool) or any(fin.get(c) is not init[c] for pc, fin in okp) or not (isinstance(h, tuple) and h[0] == "="): return False
        sig[atom_of(h[1]).id] = ZERO if init[c] else ONE; post[c] = init[c]
        return True
    def _seq_of(self, cell, v):
        return cell.owner if isinstance(cell, OwnedCell) else None
    def _val_fv(self, v):
        if isinstance(v, Poly): return v.fv()
        if isinstance(v, RPtr): return v.p.off.fv()
        if isinstance(v, Ptr): return v.off.fv()
        if isinstance(v, tuple): return cond_fv(v)
        return frozenset()
    def _delta(self, v, h):
        if isinstance(v, RPtr) and isinstance(h, RPtr): v, h = v.p, h.p
        if isinstance(v, Ptr) and isinstance(h, Ptr): return v.off - h.off if v.seq is h.seq else None
        if isinstance(v, Poly) and isinstance(h, Poly): return v - h
        return None
    def _has_local(self, p, L, stamp): return bool(self._lreads(p, None))
    def _lreads(self, p, L, acc=None):
        acc = {} if acc is None else acc
        if isinstance(p, (bool,)): return acc
        if isinstance(p, tuple):
            for x in p[1:]: self._lreads(x, L, acc)
            return acc
        for a in atoms_in(p): self._lr_atom(a, L, acc)
        return acc
    def _lr_atom(self, a, L, acc):
        if a.kind == "lread":
            if L is None or a.args[0] == L: acc[a.id] = a
            self._lreads(a.args[2], L, acc); return
        def go(x):
            if isinstance(x, Poly): self._lreads(x, L, acc)
            elif isinstance(x, tuple):
                for y in x: go(y)
        for x in a.args: go(x)
    def replace_atoms(self, p, m):
        """replace atoms (by id) anywhere in p"""
        if not m: return p
        memo = {}
        def poly(q):
            r = ZERO
            for mono, c in q.d.items():
                t = P(c)
                for i, e in mono:
                    x = atom(i)
                    if e < 0: x = inv(x); e = -e
                    for _ in range(e): t = t * x
                r = r + t
            return r
        def cnd(c):
            if isinstance(c, bool): return c
            if c[0] == "<": return lt(poly(c[1]), 0)
            if c[0] == "=": return eq(poly(c[1]), 0)
            if c[0] == "not": return neg(cnd(c[1]))
            return conj(cnd(c[1]), cnd(c[2])) if c[0] == "and" else disj(cnd(c[1]), cnd(c[2]))
        def atom(i):
            if i in m: return m[i]
            if i in memo: return memo[i]
            a = T._atoms[i]; k = a.kind
            if k == "sym": r = P(a)
            elif k == "read": r = read(a.args[0], poly(a.args[1]), a.sort)
            elif k == "lread": r = P(mk("lread", (a.args[0], a.args[1], poly(a.args[2])), a.sort))
            elif k == "fn": r = fn(a.args[0], *[poly(x) for x in a.args[1:]], sort=a.sort)
            elif k == "inv": r = inv(poly(a.args[0]))
            elif k == "ind": r = ind(cnd(a.args[0]))
            elif k == "div": r = idiv(poly(a.args[0]), poly(a.args[1]))
            elif k == "mod": r = imod(poly(a.args[0]), poly(a.args[1]))
            elif k == "sum": r = mksum([(T._atoms[b], poly(x)) for b, x in a.args[0]], poly(a.args[1]))
            elif k == "ext": r = mkext(a.args[0], [(T._atoms[b], poly(x)) for b, x in a.args[1]], cnd(a.args[2]), poly(a.args[3]))
            elif k == "fold": r = mkfold(T._atoms[a.args[0]], T._atoms[a.args[1]], poly(a.args[2]), poly(a.args[3]), poly(a.args[4]))
            else: raise Unsupported(k)
            memo[i] = r
            return r
        if isinstance(p, Poly): return poly(p)
        return cnd(p)
    def trip(self, cnd, it, loc):
        ctx = self.ctx; a = atom_of(it)
        lits = []
        def flat(c):
            if isinstance(c, tuple) and c[0] == "and": flat(c[1]); flat(c[2])
            elif c is not True: lits.append(c)
        flat(cnd)
        if not lits: raise Unsupported("endless loop at %s" % loc)
        cands = []
        for l in lits:
            if l[0] == "not" and l[1][0] in ("and", "or"): l = self.joint_exit(l, a, loc)
            neg_ = l[0] == "not"; q = l[1] if not neg_ else l[1][1]; op = (l if not neg_ else l[1])[0]
            if op not in ("<", "="): raise Unsupported("loop condition at %s" % loc)
            b = q.d.get(((a.id, 1),), 0)
            rest = q - Poly({((a.id, 1),): b}) if b else q
            # stride may be symbolic
            if not b:
                co = {}; ok = True
                for mm, c in q.d.items():
                    e = dict(mm).get(a.id, 0)
                    if e == 1: co[tuple(x for x in mm if x[0] != a.id)] = c
                    elif e > 1: ok = False
                if not co or not ok: raise Unsupported("loop condition does not depend on the iteration at %s: %s" % (loc, show_cond(cnd)))
                b = Poly(co); rest = q - b * it
            else: b = P(b)
            if a.id in rest.fv() or a.id in b.fv(): raise Unsupported("loop condition form at %s: %s" % (loc, show_cond(cnd)))
            if op == "=" and neg_:
                q2, r2 = polydivmod(-rest, b)
                if r2.d: raise Unsupported("inequality loop with non-dividing stride at %s" % loc)
                cands.append((q2, "ne"))
            elif op == "<" and not neg_ and ctx.prove(lt(0, b)):
                cands.append((-idiv(rest, b), "lt"))           # it < ceil(-rest/b)
            elif op == "<" and neg_ and ctx.prove(lt(b, 0)):   # rest + b it >= 0 -> it <= rest/(-b)
                cands.append((idiv(rest, -b) + 1, "lt"))
            else: raise Unsupported("loop condition form at %s: %s" % (loc, show_cond(cnd)))
        n, kind = cands[0]
        if len(cands) > 1:
            for n2, k2 in cands[1:]:
                if ctx.prove(le(n, n2)): continue
                if ctx.prove(le(n2, n)): n = n2; continue
                if self.decide(le(n, n2)): continue
                n = n2
        n = simp(n, ctx)
        if kind == "ne" and len(cands) == 1:
            if not self.oblige("loop terminates (!= bound reached)", le(0, n), loc):
                if not self.decide(le(0, n)): raise PathAbort("loop with != runs past its bound")
            if ctx.prove(eq(n, 0)): return None
            return n
        if ctx.prove(le(n, 0)): return None
        if not ctx.prove(le(0, n)):
            if not self.decide(lt(0, n)): return None
        return n
    def joint_exit(self, l, a, loc):
        """the loop runs while one of several quantities differs from its bound: it ends where all of them agree, if they agree at the same iteration"""
        eqs = []
        def flat(c):
            if c[0] == "and": flat(c[1]); flat(c[2])
            else: eqs.append(c)
        flat(l[1]); roots = []
        for c in eqs:
            if c[0] != "=": raise Unsupported("loop condition at %s" % loc)
            b = c[1].d.get(((a.id, 1),), 0)
            if not b or a.id in (c[1] - Poly({((a.id, 1),): b})).fv(): raise Unsupported("loop condition at %s" % loc)
            roots.append((c[1] - Poly({((a.id, 1),): b})) * (Fr(-1) / b))
        if any(r != roots[0] and not self.ctx.prove(eq(r, roots[0])) for r in roots[1:]): raise Unsupported("endless loop at %s" % loc)
        return ne(P(a), roots[0])
    def classify(self, F, h, it, n, c0, cell):
        """closed form of x' = F(x, it): (value before iteration it, value after the loop)"""
        itA = atom_of(it); c0 = self.num(c0)
        hp = P(h)
        if h.id not in F.fv():
            post = subst(F, {itA.id: n - 1})
            pre = ite(eq(it, 0), c0, subst(F, {itA.id: it - 1}))
            if not self.ctx.prove(lt(0, n)): post = ite(lt(0, n), post, c0)
            return pre, post
        g = F - hp
        if h.id not in g.fv():
            j = fresh("j"); ja = atom_of(j)
            return c0 + mksum([(ja, it)], subst(g, {itA.id: j})), c0 + mksum([(ja, n)], subst(g, {itA.id: j}))
        # max / min
        for a in self._ind_atoms(F):
            op, q = a.args[0]
            if op != "<": continue
            k = q.d.get(((h.id, 1),), 0)
            if not k: continue
            v = hp - q * (Fr(1) / Fr(k)) if True else None
            if h.id in v.fv(): continue
            for kind, c in (("max", lt(hp, v)), ("max", le(hp, v)), ("min", lt(v, hp)), ("min", le(v, hp))):
                if ite(c, v, hp) == F:
                    return self.ext_closed(kind, v, it, n, c0)
        # generic fold
        if not (F.fv() & set()):
            j = fresh("j"); ja = atom_of(j)
            return (mkfold(h, ja, it, c0, subst(F, {itA.id: j})), mkfold(h, ja, n, c0, subst(F, {itA.id: j})))
        return None
    def _argext(self, c, pend, Fv, hs, init, it, n):
        """(extremum, its first position) kept together: m := v(i), p := i where v(i) exceeds m"""
        if init[c] is None or not self.num(init[c]) == ZERO: return None
        h2 = hs[c]
        for c1 in pend:
            if c1 is c or init[c1] is None or not Fv[c].fv() & {hs[c1].id} or h2.id in Fv[c1].fv(): continue
            h1 = hs[c1]
            for a in self._ind_atoms(Fv[c1]):
                op, q = a.args[0]
                if op != "<": continue
                k = q.d.get(((h1.id, 1),), 0)
                if not k: continue
                v = P(h1) - q * (Fr(1) / Fr(k))
                if v.fv() & {x.id for x in hs.values()} or self._lreads(v, None): continue
                for kind, cc in (("max", lt(P(h1), v)), ("min", lt(v, P(h1)))):
                    if ite(cc, v, P(h1)) == Fv[c1] and ite(cc, it, P(h2)) == Fv[c] and subst(v, {atom_of(it).id: ZERO}) == self.num(init[c1]): return c1, kind, v
        return None
    def _ind_atoms(self, F):
        r = set()
        for a in atoms_in(F):
            if a.kind == "ind": r.add(a)
        return r
    def ext_closed(self, kind, v, it, n, c0):
        itA = atom_of(it); j = fresh("j"); ja = atom_of(j)
        def at(upto):
            ident = c0.is_const() and ((kind == "max" and float(c0.const()) < -1e37) or (kind == "min" and float(c0.const()) > 1e37))
            vj = subst(v, {itA.id: j})
            if ident or subst(v, {itA.id: ZERO}) == c0:
                M = mkext(kind, [(ja, upto)], True, vj)
                return M if self.ctx.prove(lt(0, upto)) else ite(lt(0, upto), M, c0)
            if subst(v, {itA.id: P(-1)}) == c0:
                return mkext(kind, [(ja, upto + 1)], True, subst(v, {itA.id: j - 1}))
            M = mkext(kind, [(ja, upto)], True, vj)
            r = self.ext_join(kind, c0, M)
            return r if self.ctx.prove(lt(0, upto)) else ite(lt(0, upto), r, c0)
        return at(it), at(n)
    def _merge_paths(self, lays, okp):
        """paths that perform the same writes become one guarded value"""
        if len(okp) < 2 or not lays: return lays
        by = {}
        for l in lays: by.setdefault(l[6], []).append(l)
        if len(by) != len(okp): return lays
        rows = list(by.values())
        if any(len(r) != len(rows[0]) for r in rows): return lays
        out = []
        for col in zip(*rows):
            f = col[0]
            if any(l[0] != f[0] or l[3] != f[3] or [b.id for b, _ in l[1]] != [] for l in col): return lays
            v = None
            for l in reversed(col): v = l[4] if v is None else ite(l[2], l[4], v)
            out.append([f[0], f[1], True, f[3], v, f[5], 0])
        return out
    def _apart(self, x, l):
        """two writes of one iteration go to different cells"""
        s = self.ctx.snapshot()
        try:
            r1, b1 = self.rename(x[1]); r2, b2 = self.rename(l[1])
            for b, n in b1 + b2: self.ctx.index(P(b), 0, n)
            return self.ctx.prove(ne(subst(x[3], r1), subst(l[3], r2)))
        finally: self.ctx.restore(s)
    def _opify(self, l, L, sq, it):
        op, bs, g, ad, v = l[:5]
        if op != "set": return
        target = mk("lread", (L, sq.birth, ad), "real" if sq.elem == "real" else "int")
        if any(a.id == target.id for a in atoms_in(v)) or target.id in self._lreads(v, L):
            # accumulation: v = old + c
            if v.d.get(((target.id, 1),)) == 1:
                c = v - P(target)
                if target.id not in self._lreads(c, L) :
                    # pure map if the address identifies the iteration; accumulation is always valid
                    l[0] = "acc"; l[4] = c; return
            h = fresh("hm", target.sort); ha = atom_of(h)
            F = self.replace_atoms(v, {target.id: h})
            for a in self._ind_atoms(F):
                o, q = a.args[0]
                if o != "<": continue
                k = q.d.get(((ha.id, 1),), 0)
                if not k: continue
                w = h - q * (Fr(1) / Fr(k))
                if ha.id in w.fv(): continue
                for kind, c in (("max", lt(h, w)), ("max", le(h, w)), ("min", lt(w, h)), ("min", le(w, h))):
                    if ite(c, w, h) == F: l[0] = kind; l[4] = w; return
    def resolve_lreads(self, v, L, it, A, okp, loc, alllay=None):
        for _ in range(20):
            lr = self._lreads(v, L)
            if not lr: return v
            # innermost first; symbols bound by a sum or an extremum around the read have their range
            m = {}; scope = {}; self._scopes(v, scope, set())
            for a in lr.values():
                if self._lreads(a.args[2], L): continue
                s = self.ctx.snapshot()
                try:
                    for i in sorted(a.args[2].fv()):
                        if scope.get(i) is not None and i not in self.ctx.rng and not any(j in scope for j in scope[i].fv()): self.ctx.index(P(T._atoms[i]), 0, scope[i])
                    m[a.id] = self._resolve_one(a, L, it, A, okp, loc, alllay)
                finally: self.ctx.restore(s)
            v = self.replace_atoms(v, m)
        raise Unsupported("nested loop reads")
    def _scopes(self, x, acc, seen):
        """ranges of the bound symbols in x; None where a name is bound twice with different ranges"""
        if isinstance(x, Poly):
            for a in atoms_in(x):
                if a.id in seen: continue
                seen.add(a.id)
                bs = a.args[0] if a.kind == "sum" else a.args[1] if a.kind == "ext" else ((a.args[1], a.args[2]),) if a.kind == "fold" else ()
                for b, n in bs: acc[b] = n if b not in acc or acc[b] == n else None
                if a.kind == "fold": acc[a.args[0]] = None
                for y in a.args: self._scopes(y, acc, seen)
        elif isinstance(x, tuple):
            for y in x: self._scopes(y, acc, seen)
    def resolve_lreads_cond(self, c, L, it, A, okp, loc, alllay):
        if isinstance(c, bool): return c
        if c[0] in ("<", "="): return (lt if c[0] == "<" else eq)(self.resolve_lreads(c[1], L, it, A, okp, loc, alllay), 0)
        if c[0] == "not": return neg(self.resolve_lreads_cond(c[1], L, it, A, okp, loc, alllay))
        a, b = [self.resolve_lreads_cond(x, L, it, A, okp, loc, alllay) for x in c[1:]]
        return conj(a, b) if c[0] == "and" else disj(a, b)
    def _resolve_one(self, a, L, it, A, okp, loc, alllay):
        sq = [x for x in A if x.birth == a.args[1]][0]
        q = a.args[2]
        if alllay is not None:
            lays = [(l[1], l[3], l[2]) for l in alllay[sq]]
        else:
            lays = []
            for pc, fin in okp:
                x = fin.get(sq.arr)
                while x is not None and not (x.kind == "pre" and x.loop == L):
                    lays.append((x.binders, x.addr, True)); x = x.prev
        itA = atom_of(it)
        for bs, ad, g in lays:
            if not self.disjoint_earlier(bs, ad, it, q, True if self._lreads(g, L) else g): raise Unsupported("iteration reads a cell written by another iteration at %s" % loc)
        prev = self._prev_of(sq)
        return self.read_arr(prev, q)
    def _prev_of(self, sq):
        a = sq.arr.v
        return a
    def disjoint_earlier(self, bs, ad, it, q, g=True):
        """no earlier iteration it' < it writes address q"""
        itA = atom_of(it)
        ctx = self.ctx
        n = ctx.rng[itA.id][1]
        i2 = fresh("it'"); ren, b2 = self.rename(bs)
        ren = dict(ren); ren[itA.id] = i2
        ad2 = subst(ad, ren); b2 = [(b, subst(x, ren)) for b, x in b2]
        s = ctx.snapshot()
        try:
            if itA.id in ad.fv():
                # i2 may range over all iterations for the uniqueness argument
                try: sol = self.solve([(atom_of(i2), n)] + b2, ad2, q)
                except Unsupported: sol = None
                if sol is not None:
                    asg, cond, free = sol
                    x = asg.get(atom_of(i2).id)
                    if x is not None:
                        if simp_cond(cond, ctx, True) is False: return True
                        if ctx.prove(conj(le(it, x))): return True
            ctx.index(i2, 0, it)
            for b, x in b2: ctx.index(P(b), 0, x)
            ctx.assume(subst_cond(g, ren))
            return ctx.prove(ne(ad2, q))
        finally: ctx.restore(s)
    def proved_(self, kind, loc):
        if self.rec: self.obligs.append(Oblig(kind, loc, "proved", "loop state"))
    def race_check(self, l, alllay, it, n, L, sq, loc):
        """iterations of a parallel loop: no cell is written by two iterations, none reads what another one writes"""
        itA = atom_of(it); kind = "no data race: iterations that run in parallel share no cell"
        sb = self.ctx.snapshot(); self.ctx.assume(lt(1, n)); two = self.ctx.feasible(); self.ctx.restore(sb)
        if not two: return
        if itA.id not in l[3].fv() and itA.id not in cond_fv(l[2]):
            self.fail(kind, loc, "every iteration of a parallel loop writes the same cell"); return
        for o in alllay[sq]:
            if not self.disjoint_iters(l, o, it, n): raise Unsupported("parallel iterations may write the same cell at %s" % loc)
        lr = {}
        self._lreads(l[4], L, lr); self._lreads(l[3], L, lr); self._lreads(l[2], L, lr)
        for a in lr.values():
            s2 = [x for x in alllay if x.birth == a.args[1]]
            for o in (alllay[s2[0]] if s2 else []):
                if a.args[2] == o[3]: continue
                if self._lreads(a.args[2], L) or not self.disjoint_iters([None, l[1], l[2], a.args[2]], o, it, n): raise Unsupported("parallel iterations may read a cell another one writes at %s" % loc)
        self.proved_(kind, loc)
    def fission(self, lays, it, n, sq, loc):
        ctx = self.ctx; itA = atom_of(it)
        out = []
        K = len(lays)
        for i in range(K):
            for j in range(i, K):
                a, b = lays[i], lays[j]
                if a[0] == b[0] and a[0] != "set": continue
                if i == j and itA.id not in a[3].fv() and a[0] == "set":
                    continue
                if not self.disjoint_iters(a, b, it, n): 
                    raise Unsupported("iterations may write the same cell at %s" % loc)
                if i != j and not self.disjoint_iters(b, a, it, n):
                    raise Unsupported("iterations may write the same cell at %s" % loc)
                if self.rec: self.obligs.append(Oblig("loop iterations write disjoint cells", loc, "proved", "arith"))
        for l in lays:
            op, bs, g, ad, v = l[:5]
            if op == "set" and itA.id not in ad.fv() and not any(itA.id in x.fv() for _, x in bs):
                if K > 1: raise Unsupported("overwritten cell in loop at %s" % loc)
                if itA.id in cond_fv(g): raise Unsupported("guarded overwrite in loop at %s" % loc)
                last = {itA.id: n - 1}
                out.append((op, bs, conj(g, lt(0, n)), ad, subst(v, last))); continue
            j = fresh("b"); ja = atom_of(j); r = {itA.id: j}
            ren, b2 = self.rename(bs); r.update(ren)
            # binder ranges may mention it
            b2 = [(x, subst(y, r)) for x, y in b2]
            g, ad = subst_cond(g, r), subst(ad, r)
            b2, g = self._flat_ranges(ja, n, b2, g, ad)
            out.append((op, [(ja, n)] + b2, g, ad, subst(v, r)))
        return out
    def _flat_ranges(self, ja, n, b2, g, ad):
        """a range that depends on the iteration and fits its stride only under the guard: use the stride as range and keep the old one in the guard"""
        if not any(ja.id in y.fv() for _, y in b2): return b2, g
        st = ZERO
        for m, c in ad.d.items():
            if (ja.id, 1) in m: st = st + Poly({tuple(x for x in m if x[0] != ja.id): c})
        if not st.d or ja.id in st.fv() or st.fv() & {x.id for x, _ in b2}: return b2, g
        ctx = self.ctx; out = []; s = ctx.snapshot()
        try:
            ctx.index(P(ja), 0, n)
            for x, y in b2:
                if ja.id in y.fv() and not ctx.prove(le(y, st), False):
                    s2 = ctx.snapshot(); ctx.assume(g); ok = ctx.prove(le(y, st)); ctx.restore(s2)
                    if ok: out.append((x, st)); g = conj(g, lt(P(x), y)); continue
                out.append((x, y))
        finally: ctx.restore(s)
        return out, g
    def disjoint_iters(self, a, b, it, n):
        """for all it' != it: address of b at it' differs from address of a at it"""
        ctx = self.ctx; itA = atom_of(it)
        s = ctx.snapshot()
        try:
            ren1, b1 = self.rename(a[1]); ad1 = subst(a[3], ren1)
            for x, y in b1: ctx.index(P(x), 0, y)
            ctx.assume(subst_cond(a[2], ren1))
            i2 = fresh("it'"); ren2, b2 = self.rename(b[1]); ren2 = dict(ren2); ren2[itA.id] = i2
            ad2 = subst(b[3], ren2); b2 = [(x, subst(y, ren2)) for x, y in b2]
            if itA.id in b[3].fv():
                try: sol = self.solve([(atom_of(i2), n)] + b2, ad2, ad1)
                except Unsupported: sol = None
                if sol is not None:
                    asg, cond, free = sol
                    x = asg.get(atom_of(i2).id)
                    if x is not None and (x == it or ctx.prove(eq(x, it))): return True
                    if simp_cond(cond, ctx, True) is False: return True
            ctx.index(i2, 0, n)
            for x, y in b2: ctx.index(P(x), 0, y)
            ctx.assume(subst_cond(b[2], ren2))
            s2 = ctx.snapshot()
            ctx.assume(lt(i2, it))
            r1 = ctx.prove(ne(ad2, ad1)); ctx.restore(s2)
            if not r1: return False
            ctx.assume(lt(it, i2))
            return ctx.prove(ne(ad2, ad1))
        finally: ctx.restore(s)
    def tick(self):
        self.steps += 1
        if self.steps > self.maxsteps: raise Unsupported("step budget")
        if self.deadline is not None and (self.steps & 63) == 0:
            import time
            if time.time() > self.deadline: raise Unsupported("time budget")
    # index loop by contract: body(i) for i in [a,b), iterations independent
    def index_loop(self, a, b, body, loc, par=False):
        i = Cell(self, P(a))
        return self.run_loop(lambda: lt(i.v, b), lambda: body(i.v), lambda: self.write(i, i.v + 1), loc, i if par else None)

    # ================================================================ execution of the AST
    def frame(self): return self.frames[-1]
    def lookup(self, node):
        d = node["d"]; fr = self.frames[-1]
        if d in fr["l"]: return fr["l"][d]
        cl = fr.get("cl")
        while cl is not None:
            if cl.caps is not None and d in cl.caps: return cl.caps[d]
            cl = cl.this if isinstance(cl.this, Obj) and cl.this.caps is not None else None
        if d in self.globals: return self.globals[d]
        g = self.G.get(str(d))
        if g is not None:
            b = self.init_global(d, g); self.globals[d] = b; return b
        raise Unsupported("unbound variable %s" % node.get("n"))
    def init_global(self, d, g):
        births = self.births
        t = g["t"]
        h = self.intr.get("global:" + g["n"])
        if h: b = h(self)
        elif "_ordering::" in g["n"] and g["n"].split("::")[-1] in ("less", "equal", "equivalent", "greater"):
            b = Cell(self, P({"less": -1, "greater": 1}.get(g["n"].split("::")[-1], 0)))
        elif g["init"] is None:
            k = self.tk(t)
            b = Cell(self, ZERO) if k in ("int", "float", "bool") else Std(self, "opaque")
        else:
            self.frames.append({"l": {}, "this": None, "cl": None, "fn": None})
            try: b = self.bind_init(t, g["init"])
            except Unsupported: b = Std(self, "opaque")
            finally: self.frames.pop()
        if isinstance(b, Cell): b.birth = 0
        return b
    def bind_init(self, t, init):
        """storage for a declared variable of type t initialised by expression init"""
        k = self.tk(t)
        if k == "ref":
            if init["k"] == "ilist" and len(init["a"]) == 1 and "t" in init["a"][0] and self.strip(init["a"][0]["t"]) == self.strip(init["t"]): init = init["a"][0]   # R& r_{ lvalue }
            v = self.ev(init)
            if isinstance(v, SC): return Cell(self, v)
            return v
        if k in ("int", "float", "bool", "ptr"):
            return Cell(self, self.rv(init))
        if k == "arr":
            v = self.ev(init)
            return v
        v = self.ev(init)
        if isinstance(v, (Cell, ElemLV)): v = self.load(v)
        if isinstance(v, SC): return Cell(self, v)
        return v
    def default_storage(self, t):
        k = self.tk(t)
        if k in ("int", "float", "bool", "ptr", "ref"): return Cell(self, None)
        if k == "arr":
            n = self.ty(t)["n"]; e = self.ty(t)["e"]
            return Seq(self, self.elemkind(e), tuple(self.default_storage(e) for _ in range(n)), et=e)
        r = self.recof(t)
        if r is None: return Cell(self, None)
        if r["ext"]: return self.stl.default(self, r, t)
        rec = self.TY[self.strip(t)]["d"]
        if r["n"] in self.opaque_records: return Std(self, "opaque")
        for c in r.get("ctors", []):                        # a user-provided default constructor
            f = self.F[str(c["f"])]
            if not c["cc"] and not c["mc"] and "body" in f and all(p.get("dv") is not None for p in f["ps"]): return self.construct(c["f"], [], None, rec)
        o = Obj(self, rec); self.init_fields(o, r); return o
    def init_fields(self, o, r):
        for bt in r.get("bases", []):
            br = self.recof(bt)
            if br and not br["ext"]: self.init_fields(o, br)
        for f in r.get("fields", []):
            if f["n"] in o.f: continue
            if f["init"] is not None:
                self.frames.append({"l": {}, "this": o, "cl": None, "fn": None})
                try: o.f[f["n"]] = self.bind_init(f["t"], f["init"])
                finally: self.frames.pop()
            else: o.f[f["n"]] = self.default_storage(f["t"])
    # ---- statements
    def ex(self, s):
        if s is None: return None
        self.tick()
        return getattr(self, "s_" + s["k"], self.s_unknown)(s)
    def s_unknown(self, s): raise Unsupported("statement %s at %s" % (s.get("what", s["k"]), s.get("loc")))
    def s_block(self, s):
        gone = []
        for x in s["b"]:
            r = self.ex(x)
            if x is not None and x["k"] == "decl":
                for v in x["v"]:
                    b = None if v["st"] or self.tk(v["t"]) == "ref" else self.frames[-1]["l"].get(v["d"])
                    if isinstance(b, Obj) and self.R[str(b.rec)].get("dtor") is not None: gone.append(b)
            if r is not None:
                self.destroy(gone, r); return r
        self.destroy(gone)
    def destroy(self, gone, r=None):                        # user-provided destructors of the block's variables
        for b in reversed(gone):
            if isinstance(r, tuple) and any(x is b for x in r): continue
            f = self.F[str(self.R[str(b.rec)]["dtor"])]
            if "body" not in f: continue
            self.visited.add((f["n"], f["loc"]))
            self.frames.append({"l": {}, "this": b, "cl": None, "fn": f})
            try: self.ex(f["body"])
            finally: self.frames.pop()
    def s_nop(self, s): return None
    def s_expr(self, s): self.ev(s["e"]); return None
    def s_decl(self, s):
        for v in s["v"]: self.declare(v)
    def declare(self, v):
        l = self.frames[-1]["l"]
        if v["st"]:
            key = ("static", v["d"])
            if key not in self.globals:
                b = self.bind_init(v["t"], v["init"]) if v["init"] is not None else self.default_storage(v["t"])
                self._age(b); self.globals[key] = b
            self.globals[v["d"]] = self.globals[key]; l[v["d"]] = self.globals[key]; return
        if v["init"] is not None: b = self.bind_init(v["t"], v["init"])
        else: b = self.default_storage(v["t"])
        l[v["d"]] = b
        for x in v.get("bind", []) or []:
            if x["hv"] is not None:
                self.declare(x["hv"]); l[x["d"]] = l[x["hv"]["d"]]
            else:
                r = self.ev(x["e"])
                l[x["d"]] = r if not isinstance(r, SC) else Cell(self, r)
    def _age(self, b):
        if isinstance(b, Cell): b.birth = 0
        elif isinstance(b, Obj):
            b.birth = 0
            for x in b.f.values(): self._age(x)
        elif isinstance(b, Std):
            b.birth = 0
            for x in b.c.values(): x.birth = 0
    def s_if(self, s):
        if s["init"]: self.ex(s["init"])
        if s["cv"]: self.ex(s["cv"])
        c = self.tobool(self.rv(s["c"]))
        return self.ex(s["l"] if self.decide(c) else s["r"])
    def s_switch(self, s):
        if s["init"]: self.ex(s["init"])
        v = self.rv(s["c"]); v = self.num(v); start = None; dflt = None
        for i, x in enumerate(s["b"]):
            if "v" not in x: continue
            if x["v"] is None: dflt = i
            elif self.decide(eq(v, int(x["v"]))): start = i; break
        if start is None: start = dflt
        if start is None: return None
        for x in s["b"][start:]:
            if "s" not in x: continue
            r = self.ex(x["s"])
            if r is not None: return None if r[0] == "break" else r
        return None
    def loop_body(self, b):
        def go():
            r = self.ex(b)
            if r is not None and r[0] == "continue": return None
            return r
        return go
    def s_for(self, s):
        if s["init"]: self.ex(s["init"])
        return self.run_loop((lambda: self.tobool(self.rv(s["c"]))) if s["c"] else (lambda: True), self.loop_body(s["b"]), (lambda: self.ev(s["inc"])) if s["inc"] else None, s["loc"])
    def s_do(self, s):
        r = self.loop_body(s["b"])()
        if r is not None: return None if r[0] == "break" else r
        return self.run_loop(lambda: self.tobool(self.rv(s["c"])), self.loop_body(s["b"]), None, s["loc"])
    def s_rfor(self, s):
        for x in s["pre"]: self.ex(x)
        def body():
            self.ex(s["lv"])
            r = self.ex(s["b"])
            if r is not None and r[0] == "continue": return None
            return r
        return self.run_loop(lambda: self.tobool(self.rv(s["c"])), body, lambda: self.ev(s["inc"]), s["loc"])
    def s_ret(self, s):
        if s["e"] is None: return ("ret", None)
        return ("ret", self.ev(s["e"]))
    def s_break(self, s): return ("break",)
    def s_continue(self, s): return ("continue",)
    # ---- expressions
    def rv(self, e):
        v = self.ev(e)
        if isinstance(v, (Cell, ElemLV)): v = self.load(v)
        return v
    def ev(self, e):
        if e is None: return None
        self.tick()
        return getattr(self, "e_" + e["k"], self.e_unknown)(e)
    def e_unknown(self, e): raise Unsupported("expression %s at %s" % (e.get("what", e["k"]), e.get("loc")))
    e_unsupported = e_unknown
    def e_int(self, e):
        if self.tk(e["t"]) == "bool": return e["v"] != "0"
        return P(int(e["v"]))
    def e_float(self, e):
        x = float.fromhex(e["v"])
        if x != x or x in (float("inf"), float("-inf")): return fn("special_" + str(x))
        return P(Fr(x))
    def e_null(self, e): return NULL
    def e_str(self, e): return Std(self, "str", v=e["v"])
    def e_this(self, e):
        t = self.frames[-1]["this"]
        if t is None and self.frames[-1].get("cl") is not None: t = self.frames[-1]["cl"].this
        return Addr(t)
    def e_ref(self, e): return self.lookup(e)
    def e_bref(self, e): return self.lookup(e)
    def e_fref(self, e): return FnVal(e["f"])
    def e_tmp(self, e):
        v = self.ev(e["e"])
        if isinstance(v, SC): return Cell(self, v)
        return v
    def e_nop(self, e): return None
    def e_opaque(self, e): return Std(self, "opaque")
    def e_zero(self, e):
        k = self.tk(e["t"])
        if k in ("int", "float"): return ZERO
        if k == "bool": return False
        if k == "ptr": return NULL
        return self.default_storage(e["t"])
    def e_stdinit(self, e):
        v = self.ev(e["e"]); return v
    def e_ilist(self, e):
        t = e["t"]; k = self.tk(t)
        if k in ("int", "float", "bool", "ptr"):
            return self.rv(e["a"][0]) if e["a"] else self.e_zero(e)
        if k == "arr":
            et = self.ty(t)["e"]; n = self.ty(t)["n"]; items = []
            for x in e["a"]: items.append(self.bind_init(et, x))
            while len(items) < n:
                items.append(self.bind_init(et, e["fill"]) if e.get("fill") else self.default_storage(et))
            return Seq(self, self.elemkind(et), tuple(items), et=et)
        if len(e["a"]) == 1 and e["a"][0] is not None and "t" in e["a"][0] and self.strip(e["a"][0]["t"]) == self.strip(t): return self.ev(e["a"][0])   # T{ prvalue of T }
        r = self.recof(t)
        if r["ext"]: return self.stl.construct(self, r, t, [self.ev(x) for x in e["a"]], e)
        o = Obj(self, self.ty(self.strip(t))["d"]); i = 0
        for bt in r.get("bases", []):
            if i < len(e["a"]):
                self.construct_base(o, bt, e["a"][i]); i += 1
        for f in r["fields"]:
            if i < len(e["a"]) and e["a"][i] is not None: o.f[f["n"]] = self.bind_init(f["t"], e["a"][i])
            else: o.f[f["n"]] = self.default_storage(f["t"])
            i += 1
        return o
    def e_mem(self, e):
        b = self.ev(e["b"])
        if e["ar"]: b = self.deref(self.load(b) if isinstance(b, (Cell, ElemLV)) else b)
        elif isinstance(b, (Cell, ElemLV)): b = self.load(b)
        if "sv" in e: return self.lookup({"d": e["sv"], "n": e["n"]})
        if isinstance(b, Obj):
            if e["n"] not in b.f:
                if e["n"] == "": 
                    return b
                raise Unsupported("field %s" % e["n"])
            return b.f[e["n"]]
        if isinstance(b, Std): return self.stl.member(self, b, e["n"])
        raise Unsupported("member %s of %r" % (e["n"], b))
    def deref(self, p, loc=None):
        if isinstance(p, Addr): return p.lv
        if isinstance(p, Ptr): return self.elem_lv(p, loc)
        if isinstance(p, Std): return self.stl.deref(self, p)
        if p is NULL: self.fail("no null dereference", loc); raise PathAbort("null dereference")
        raise Unsupported("dereference of %r" % (p,))
    def elem_lv(self, p, loc=None):
        seq = p.seq
        if seq.elem == "obj" or (seq.items.v is not None and seq.items.v and not isinstance(seq.items.v[0], Cell)):
            i = self.concrete_index(p.off)
            if i is None or seq.items.v is None: raise Unsupported("symbolic index into objects")
            if not (0 <= i < len(seq.items.v)):
                self.fail("index within bounds", loc, "index %d of %d" % (i, len(seq.items.v))); raise PathAbort("out of bounds")
            return seq.items.v[i]
        if isinstance(p, ArgPtr):
            k = KnownLV(seq, p.off, loc); k.snap = p.snap; k.val = p.val; return k
        return ElemLV(seq, p.off, loc)
    def e_idx(self, e):
        b = self.rv(e["b"]); i = self.rv(e["i"])
        if isinstance(b, Seq): b = Ptr(b, 0)
        if not isinstance(b, Ptr): raise Unsupported("subscript")
        return self.elem_lv(Ptr(b.seq, b.off + self.num(i)), e["loc"])
    def e_cond(self, e):
        c = self.tobool(self.rv(e["c"]))
        if not isinstance(c, bool):
            c = simp_cond(c, self.ctx, True)
        if isinstance(c, bool): return self.ev(e["l"] if c else e["r"])
        k = self.tk(e["t"])
        if k in ("int", "float") and self.pure(e["l"]) and self.pure(e["r"]):
            s = self.ctx.snapshot()
            self.ctx.assume(c)
            try: a = self.rv(e["l"])
            finally: self.ctx.restore(s)
            self.ctx.assume(neg(c))
            try: b = self.rv(e["r"])
            finally: self.ctx.restore(s)
            return ite(c, self.num(a), self.num(b))
        return self.ev(e["l"] if self.decide(c) else e["r"])
    def pure(self, e):
        if e is None: return True
        k = e["k"]
        if k in ("int", "float", "ref", "bref", "null", "zero", "this"): return True
        if k == "cast": return self.pure(e["e"])
        if k == "bin": return e["o"] not in ("=",) and self.pure(e["l"]) and self.pure(e["r"])
        if k == "un": return e["o"] in ("-", "+", "!", "*", "~") and self.pure(e["e"])
        if k == "mem": return self.pure(e["b"])
        if k == "tmp": return self.pure(e["e"])
        if k == "ilist": return all(self.pure(x) for x in e["a"])
        if k == "cond": return self.pure(e["c"]) and self.pure(e["l"]) and self.pure(e["r"])
        if k == "idx": return self.pure(e["b"]) and self.pure(e["i"])
        if k == "call" and "f" in e:
            f = self.F[str(e["f"])]
            return f["ext"] == 1 and self.stl.is_math(f["n"]) and all(self.pure(x) for x in e["a"])
        return False
    def wrap(self, p, t):
        ty = self.ty(t)
        if ty["k"] == "int" and isinstance(p, Poly) and p.is_const():
            v = p.const()
            if isinstance(v, Fr): v = int(v)
            w = ty["w"]; v &= (1 << w) - 1
            if ty["sg"] and v >> (w - 1): v -= 1 << w
            return P(v)
        if ty["k"] == "int" and not ty["sg"] and isinstance(p, Poly):
            # symbolic unsigned: reduced modulo 2^w
            if p.d.get((), 0) >= 1 << (ty["w"] - 1):
                q = p - (1 << ty["w"])
                if self.ctx.prove(lt(q, 0), False): return p
                if self.ctx.prove(ge(q, 0), False): return q
                return p if self.decide(lt(q, 0)) else q
            if any(c < 0 for c in p.d.values()):
                c = lt(p, 0)
                if not self.ctx.prove(neg(c), False):
                    if self.decide(c): return p + (1 << ty["w"])
        return p
    def ringop(self, x):
        while x["k"] == "paren": x = x["e"]
        return x if x["k"] == "bin" and x["o"] in ("+", "-", "*") else None
    def ringval(self, e, w):
        x = self.ringop(e)
        if x is None or self.tk(x["t"]) != "int" or self.ty(x["t"])["sg"] or self.ty(x["t"])["w"] != w: return self.num(self.rv(e))
        a = self.ringval(x["l"], w); b = self.ringval(x["r"], w)
        return a + b if x["o"] == "+" else a - b if x["o"] == "-" else a * b
    def e_cast(self, e):
        ck = e["ck"]
        if ck == "LValueToRValue":
            v = self.ev(e["e"])
            return self.load(v) if isinstance(v, (Cell, ElemLV)) else v
        if ck in ("ToVoid",): self.ev(e["e"]); return None
        if ck == "ArrayToPointerDecay":
            v = self.ev(e["e"])
            return Ptr(v, 0) if isinstance(v, Seq) else v
        if ck == "BitCast":
            v = self.ev(e["e"])
            if isinstance(v, (Cell, ElemLV)): v = self.load(v)
            if isinstance(v, Ptr) and v.seq.et is None and self.tk(e["t"]) == "ptr":
                et = self.ty(e["t"])["e"]; k = self.tk(et)
                if k in ("int", "float", "bool") and (k == "float" or self.ty(et).get("w", 8) > 8):
                    w = self.ty(et)["w"] // 8; sz = v.seq.size.v
                    q, r = polydivmod(sz, P(w))
                    if r.d: raise Unsupported("reinterpretation of a partial block")
                    v.seq.et = et; v.seq.elem = "real" if k == "float" else "int"
                    self.write(v.seq.size, q)
                    a = v.seq.arr.v
                    if a.kind == "base": self.write(v.seq.arr, Base(a.name, "real" if k == "float" else "int"))
                    elif a.kind != "const": raise Unsupported("reinterpretation of a written block")
            return v
        if ck in ("DerivedToBase", "UncheckedDerivedToBase", "BaseToDerived", "LValueBitCast", "AtomicToNonAtomic", "NonAtomicToAtomic", "Dependent"):
            return self.ev(e["e"])
        if ck in ("NullToPointer",): return NULL
        if ck == "IntegralCast":
            to, fr = self.ty(e["t"]), self.ty(e["ft"])
            if to["k"] == "int" and fr["k"] == "int" and to["sg"] and not fr["sg"] and to["w"] == fr["w"] and self.ringop(e["e"]):
                # arithmetic modulo 2^w read as a signed value: the mathematical value
                v = self.ringval(e["e"], fr["w"])
                if v.is_const(): return self.wrap(v, e["t"])
                self.assumed.add("signed indices stay inside the range of their type")
                return Poly({m: c - (1 << to["w"]) if c >= 1 << (to["w"] - 1) else c for m, c in v.d.items()})
        v = self.rv(e["e"])
        if ck in ("IntegralCast",):
            v = self.num(v)
            if self.tk(e["ft"]) == "bool": return v
            to = self.ty(e["t"])
            if to["k"] == "int" and to["sg"] and not v.is_const() and any(c >= 1 << (to["w"] - 1) for c in v.d.values()):
                return Poly({m: c - (1 << to["w"]) if c >= 1 << (to["w"] - 1) else c for m, c in v.d.items()})
            return self.wrap(v, e["t"])
        if ck in ("IntegralToBoolean", "FloatingToBoolean", "PointerToBoolean"): return self.tobool(v)
        if ck in ("IntegralToFloating", "FloatingCast", "BooleanToSignedIntegral"): return self.num(v)
        if ck == "FloatingToIntegral":
            v = self.num(v)
            if v.is_const():
                c = Fr(v.const()); return self.wrap(P(int(c) if c >= 0 else -int(-c)), e["t"])
            if is_int_poly(v): return v
            return fn("trunc", v, sort="int")
        if ck == "PointerToIntegral": raise Unsupported("pointer to integer")
        raise Unsupported("cast " + ck)
    def e_un(self, e):
        o = e["o"]
        if o == "&":
            v = self.ev(e["e"])
            if isinstance(v, ElemLV): return Ptr(v.seq, v.off)
            if isinstance(v, FnVal): return v
            if isinstance(v, Obj) or isinstance(v, Std) or isinstance(v, Seq) or isinstance(v, Cell): return self.addr_in_seq(v) or Addr(v)
            raise Unsupported("address of %r" % (v,))
        if o == "*": return self.deref(self.rv(e["e"]), e.get("loc"))
        if o in ("++", "--"):
            lv = self.ev(e["e"]); old = self.load(lv); d = 1 if o == "++" else -1
            if isinstance(old, Ptr): new = Ptr(old.seq, old.off + d)
            else:
                old = self.num(old); ty = self.ty(self.strip(e["t"]))
                if d < 0 and ty["k"] == "int" and not ty["sg"] and not old.is_const() and not self.ctx.prove(le(0, old), False): self.ctx.assume(le(0, old))    # an unsigned variable
                new = self.wrap(old + d, e["t"])
            self.store(lv, new)
            return old if e["post"] else lv
        v = self.rv(e["e"])
        if o == "-": return self.wrap(-self.num(v), e["t"]) if self.tk(e["t"]) == "int" else -self.num(v)
        if o == "+": return v
        if o == "!": return neg(self.tobool(v))
        if o == "~":
            v = self.num(v)
            if v.is_const(): return self.wrap(P(~int(v.const())), e["t"])
        raise Unsupported("unary " + o)
    def addr_in_seq(self, v): return None
    def e_bin(self, e):
        o = e["o"]
        if o == "=":
            r = self.rv(e["r"]); l = self.ev(e["l"]); self.store(l, r); return l
        if o == ",": self.ev(e["l"]); return self.ev(e["r"])
        if o in ("&&", "||"):
            a = self.tobool(self.rv(e["l"]))
            if not isinstance(a, bool): a = simp_cond(a, self.ctx, True)
            if isinstance(a, bool):
                if o == "&&": return self.tobool(self.rv(e["r"])) if a else False
                return True if a else self.tobool(self.rv(e["r"]))
            if self.pure(e["r"]):
                s = self.ctx.snapshot(); self.ctx.assume(a if o == "&&" else neg(a))
                try: b = self.tobool(self.rv(e["r"]))
                finally: self.ctx.restore(s)
                return conj(a, b) if o == "&&" else disj(a, b)
            if o == "&&": return self.tobool(self.rv(e["r"])) if self.decide(a) else False
            return True if self.decide(a) else self.tobool(self.rv(e["r"]))
        return self.binop(o, self.rv(e["l"]), self.rv(e["r"]), e["t"], e.get("loc"), e)
    def binop(self, o, a, b, t, loc, e=None):
        if isinstance(a, Seq): a = Ptr(a, 0)
        if isinstance(b, Seq): b = Ptr(b, 0)
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            if o == "+": return Ptr(a.seq, a.off + self.num(b)) if isinstance(a, Ptr) else Ptr(b.seq, b.off + self.num(a))
            if o == "-":
                if isinstance(b, Ptr):
                    if a.seq is not b.seq: raise Unsupported("difference of unrelated pointers")
                    return a.off - b.off
                return Ptr(a.seq, a.off - self.num(b))
            if o in ("==", "!=", "<", "<=", ">", ">=", "<=>"):
                if a is NULL or b is NULL: return o == "!="
                if not (isinstance(a, Ptr) and isinstance(b, Ptr)): raise Unsupported("pointer comparison")
                if a.seq is not b.seq:
                    if o == "==": return False
                    if o == "!=": return True
                    raise Unsupported("comparison of unrelated pointers")
                a, b = a.off, b.off
        if a is NULL or b is NULL:
            if o in ("+", "-") and isinstance(b, Poly) and b == ZERO: return NULL
            if o == "-" and a is b: return ZERO
            if o in ("<=", ">=") and a is b: return True
            if o in ("<", ">") and a is b: return False
        if isinstance(a, (RPtr, MapIt)): 
            r = self.stl.ieq(self, a, b); return r if o == "==" else neg(r)
        if o in ("==", "!=") and (isinstance(a, (Addr, Null, FnVal)) or isinstance(b, (Addr, Null, FnVal))):
            r = (a is b) or (isinstance(a, Addr) and isinstance(b, Addr) and a.lv is b.lv)
            return r if o == "==" else not r
        if o in ("==", "!=") and isinstance(a, (bool, tuple)) and isinstance(b, (bool, tuple)):
            if isinstance(a, bool) or isinstance(b, bool):
                if isinstance(b, bool): a, b = b, a
                r = b if a else neg(b)
            else: r = eq(ind(a), ind(b))
            return r if o == "==" else neg(r)
        a, b = self.num(a), self.num(b)
        if o in ("==", "!=") and ((a.is_const() and a.const() >= 1 << 62 and not b.is_const() and is_int_poly(b)) or (b.is_const() and b.const() >= 1 << 62 and not a.is_const() and is_int_poly(a))):
            self.assumed.add("sizes and indices stay below 2^62"); return o == "!="
        if o in ("==", "!="):
            r = eq(a, b)
            if not isinstance(r, bool) and is_int_poly(r[1]) and any(T._atoms[i].kind == "ind" for m in r[1].d for i, _ in m): r = case_eq(r, self.ctx)
            return r if o == "==" else neg(r)
        if o == "<=>": return ite(lt(a, b), P(-1), ite(eq(a, b), ZERO, ONE))
        if o == "<": return lt(a, b)
        if o == "<=": return le(a, b)
        if o == ">": return lt(b, a)
        if o == ">=": return ge(a, b)
        isint = self.tk(t) == "int"
        if o == "+": r = a + b
        elif o == "-": r = a - b
        elif o == "*": r = a * b
        elif o == "/":
            if not isint:
                if not b.is_const(): self.assumed.add("floating-point divisors are nonzero (results are specified where the quotient is defined)")
                return a / b if not (b.is_const() and b.const() == 0) else fn("div0", a)
            if b.is_const() and b.const() == 0: self.fail("no division by zero", loc); raise PathAbort("division by zero")
            if not self.oblige("no division by zero", ne(b, 0), loc): raise Unsupported("possible division by zero at %s" % loc)
            if a.is_const() and b.is_const():
                x, y = int(a.const()), int(b.const()); q = abs(x) // abs(y)
                r = P(q if (x < 0) == (y < 0) else -q)
            else: r = self.trunc_only(idiv(a, b), a, b, t, loc)
        elif o == "%":
            if b.is_const() and b.const() == 0: self.fail("no division by zero", loc); raise PathAbort("division by zero")
            if not self.oblige("no division by zero", ne(b, 0), loc): raise Unsupported("possible division by zero at %s" % loc)
            r = self.trunc_only(imod(a, b), a, b, t, loc)
        elif o in ("<<", ">>", "&", "|", "^"):
            if a.is_const() and b.is_const():
                x, y = int(a.const()), int(b.const())
                r = P({"<<": lambda: x << y, ">>": lambda: x >> y, "&": lambda: x & y, "|": lambda: x | y, "^": lambda: x ^ y}[o]())
            elif o == "<<" and b.is_const(): r = a * (1 << int(b.const()))
            elif o == ">>" and b.is_const(): r = idiv(a, P(1 << int(b.const())))
            elif o == "&" and b.is_const() and (int(b.const()) + 1) & int(b.const()) == 0: r = imod(a, P(int(b.const()) + 1))
            else: raise Unsupported("bit operation on symbolic value at %s" % loc)
        else: raise Unsupported("operator " + o)
        return self.wrap(r, t) if isint else r
    def trunc_only(self, r, a, b, t, loc):
        """C++ rounds a signed quotient towards zero, div and mod below round down: the same when it is exact or both operands are non-negative"""
        if not self.ty(t).get("sg"): return r
        if r.is_const() or not any(x.kind in ("div", "mod") for x in atoms_in(r) - atoms_in(a) - atoms_in(b)): 
            if not (a.is_const() and b.is_const()): return r
        if a.is_const() and b.is_const() and (a.const() < 0 or b.const() < 0): raise Unsupported("signed remainder at %s" % loc)
        if self.ctx.prove(le(0, a)) and self.ctx.prove(lt(0, b)): return r
        raise Unsupported("signed quotient that may be negative at %s" % loc)
    def e_casg(self, e):
        r = self.rv(e["r"]); l = self.ev(e["l"]); old = self.load(l)
        v = self.binop(e["o"][:-1], old, r, e["rt"], e.get("loc"))
        if self.tk(e["t"]) == "int": v = self.wrap(v, e["t"]) if isinstance(v, Poly) else v
        self.store(l, v); return l
    def e_lambda(self, e):
        o = Obj(self, e["rec"]); o.caps = {}
        for c in e["caps"]:
            if c["this"]:
                t = self.frames[-1]["this"]
                if t is None and self.frames[-1].get("cl") is not None: t = self.frames[-1]["cl"].this
                o.this = t; continue
            v = self.ev(c["init"])
            if not c["byref"]:
                if isinstance(v, SC): v = Cell(self, v)
                elif isinstance(v, (Cell, ElemLV)): v = Cell(self, self.load(v))
            o.caps[c["d"]] = v
        return o
    def e_new(self, e): raise Unsupported("new")
    def e_delete(self, e): raise Unsupported("delete")
    def e_throw(self, e): raise PathAbort("throw")
    # ---- calls
    def e_ctor(self, e, target=None):
        f = self.F[str(e["f"])]
        r = self.recof(e["t"])
        if self.tk(e["t"]) == "arr":
            et = self.ty(e["t"])["e"]
            return Seq(self, "obj", tuple(self.default_storage(et) for _ in range(self.ty(e["t"])["n"])), et=et)
        if r["ext"] and not r["n"].startswith("ceras"):
            args = [self.ev(x) for x in e["a"]]
            return self.stl.construct(self, r, e["t"], args, e, f)
        if e["copy"] and "body" not in f:
            v = self.ev(e["a"][0])
            if isinstance(v, (Cell, ElemLV)): v = self.load(v)
            return self.copy(v, target)
        args = [self.ev(x) for x in e["a"]]
        return self.construct(e["f"], args, target, self.ty(self.strip(e["t"]))["d"])
    def construct(self, fid, args, target=None, rec=None):
        f = self.F[str(fid)]
        if rec is None: rec = f["cls"]
        o = target if target is not None else Obj(self, rec)
        r = self.R[str(f["cls"])]
        if r["n"] in self.opaque_records: return Std(self, "opaque")
        if "body" not in f:
            self.init_fields(o, r); return o
        self.visited.add((f["n"], f["loc"]))
        self.frames.append({"l": {}, "this": o, "cl": None, "fn": f})
        try:
            self.bind_params(f, args)
            done = set()
            for i in f.get("inits", []):
                if i["del"]:
                    self.construct_base(o, None, i["e"]); done = None; break
                if i["base"] is not None:
                    br = self.recof(i["base"])
                    if br is None or br["ext"]: self.ev(i["e"]) if False else None
                    else: self.construct_base(o, i["base"], i["e"])
                elif i["f"] is not None:
                    ft = [x["t"] for x in r["fields"] if x["n"] == i["f"]][0]
                    o.f[i["f"]] = self.bind_init(ft, i["e"]); done.add(i["f"])
            if done is not None:
                for x in r["fields"]:
                    if x["n"] not in o.f:
                        o.f[x["n"]] = self.bind_init(x["t"], x["init"]) if x["init"] is not None else self.default_storage(x["t"])
            self.ex(f["body"])
        finally: self.frames.pop()
        return o
    def construct_base(self, o, bt, e):
        while e["k"] in ("tmp",): e = e["e"]
        if e["k"] == "ctor":
            f = self.F[str(e["f"])]
            if f["ext"] and "body" not in f: return
            if e["copy"] and "body" not in f:
                src = self.ev(e["a"][0]); r = self.R[str(f["cls"])]
                self.copy_fields(src, o, r); return
            args = [self.ev(x) for x in e["a"]]
            self.construct(e["f"], args, o)
            return
        if e["k"] == "ictor":                              # inherited constructor: the base is built from the same arguments
            fr = self.frames[-1]
            self.construct(e["f"], [fr["l"][p["d"]] for p in fr["fn"]["ps"] if p["d"] in fr["l"]], o)
            return
        v = self.ev(e)
        if isinstance(v, Obj): o.f.update(v.f)
    def copy_fields(self, src, o, r):
        for bt in r.get("bases", []):
            br = self.recof(bt)
            if br and not br["ext"]: self.copy_fields(src, o, br)
        for x in r.get("fields", []):
            if x["n"] in src.f:
                if self.tk(x["t"]) == "ref": o.f[x["n"]] = src.f[x["n"]]
                else: o.f[x["n"]] = self.copy(src.f[x["n"]])
    def copy(self, v, target=None):
        if isinstance(v, Cell): return Cell(self, v.v)
        if isinstance(v, ElemLV): return Cell(self, self.load(v))
        if isinstance(v, Obj):
            r = self.R[str(v.rec)]
            if v.caps is not None:
                o = Obj(self, v.rec); o.this = v.this; o.caps = {}
                fl = {}
                for d, b in v.caps.items():
                    o.caps[d] = b if self.cap_byref(v, d) else self.copy(b)
                return o
            for c in r.get("ctors", []):
                if c["cc"] and "body" in self.F[str(c["f"])]: return self.construct(c["f"], [v], target, v.rec)
            for c in r.get("ctors", []):
                if c["mc"] and "body" in self.F[str(c["f"])]: return self.construct(c["f"], [v], target, v.rec)
            o = target if target is not None else Obj(self, v.rec)
            self.copy_fields(v, o, r)
            return o
        if isinstance(v, Std): return self.stl.copy(self, v)
        if isinstance(v, Seq): return self.copy_seq(v)
        return v
    def copy_seq(self, v):
        if v.items.v is not None: s = Seq(self, v.elem, tuple(self.copy(x) for x in v.items.v), et=v.et)
        else: s = Seq(self, v.elem, None, v.arr.v, v.size.v, v.et)
        return s
    def cap_byref(self, o, d):
        key = ("capref", o.rec, d)
        r = self.strid.get(key)
        if r is None:
            r = False
            rec = self.R[str(o.rec)]
            # field order equals capture order
            ids = list(o.caps.keys())
            if d in ids:
                fl = rec.get("fields", [])
                k = ids.index(d) + (1 if o.this is not None and len(fl) > len(ids) else 0)
                if k < len(fl): r = self.tk(fl[k]["t"]) == "ref"
            self.strid[key] = r
        return r
    def bind_params(self, f, args):
        l = self.frames[-1]["l"]
        for i, p in enumerate(f["ps"]):
            if i >= len(args):
                if p.get("dv") is None: break
                a = self.ev(p["dv"])
            else: a = args[i]
            k = self.tk(p["t"])
            if k == "ref":
                if isinstance(a, SC): a = Cell(self, a)
            else:
                if isinstance(a, (Cell, ElemLV)): a = self.load(a)
                if isinstance(a, SC) or a is None: a = Cell(self, a)
            l[p["d"]] = a
    def invoke(self, fid, args, this=None, cl=None, loc=None):
        f = self.F[str(fid)]
        h = self.intr.get(f["n"]) or self.intr.get(f["sn"] if f["sn"].startswith("vf_") else None)
        if h is not None: return h(self, f, args, this, loc)
        if f["ext"] or "body" not in f:
            if f.get("dft") and f["sn"] == "operator=" and isinstance(this, Obj): return self.assign(this, args[0])
            return self.stl.call(self, f, args, this, loc)
        return self.run_body(f, args, this, cl)
    def run_body(self, f, args, this=None, cl=None):
        self.visited.add((f["n"], f["loc"]))
        if len(self.frames) > 200: raise Unsupported("recursion too deep")
        self.frames.append({"l": {}, "this": this, "cl": cl, "fn": f})
        try:
            self.bind_params(f, args)
            r = self.ex(f["body"])
        except Unsupported as e:
            e.trace = getattr(e, "trace", []) + [f["sn"]]
            raise
        finally: self.frames.pop()
        if r is None: return None
        v = r[1]
        if isinstance(v, (Cell, ElemLV)) and self.tk(f["rt"]) != "ref": v = self.load(v)
        return v
    def call_value(self, fnv, args, loc=None):
        """call a closure / function object / function pointer"""
        if isinstance(fnv, Cell): fnv = fnv.v
        if isinstance(fnv, Addr): fnv = fnv.lv
        if isinstance(fnv, FnVal): return self.invoke(fnv.fid, args, loc=loc)
        if isinstance(fnv, Std):
            return self.stl.call_object(self, fnv, args, loc)
        if isinstance(fnv, Obj):
            r = self.R[str(fnv.rec)]
            c = [x for x in r.get("calls", []) if len(self.F[str(x)]["ps"]) == len(args)]
            if not c: raise Unsupported("no call operator instantiated for %s" % r["n"])
            if len(c) > 1: c = [self.pick(c, args)]
            return self.invoke(c[0], args, this=fnv if fnv.caps is None else fnv.this, cl=fnv, loc=loc)
        raise Unsupported("call of %r" % (fnv,))
    def pick(self, cands, args):
        def score(fid):
            s = 0
            for p, a in zip(self.F[str(fid)]["ps"], args):
                v = self.load(a) if isinstance(a, Cell) else a
                if isinstance(a, ElemLV): v = ONE if a.seq.elem == "int" else fn("x")
                k = self.tk(self.strip(p["t"]))
                if isinstance(v, Poly): s += 2 if ((k == "int") == is_int_poly(v)) else (0 if k in ("int", "float") else -5)
                elif isinstance(v, (bool, tuple)): s += 2 if k == "bool" else 0
                elif isinstance(v, Ptr): s += 2 if k == "ptr" else 0
                elif isinstance(v, Obj): s += 3 if k == "rec" and self.ty(self.strip(p["t"]))["d"] == v.rec else -5
            return s
        return max(cands, key=score)
    def e_call(self, e):
        if "f" in e:
            f = self.F[str(e["f"])]
            if f["n"].endswith("print_assertion"): raise PathAbort("assertion failed at %s" % e["loc"])
            return self.invoke(e["f"], [self.ev(x) for x in e["a"]], loc=e["loc"])
        c = self.rv(e["c"])
        return self.call_value(c, [self.ev(x) for x in e["a"]], e["loc"])
    def e_mcall(self, e):
        o = self.ev(e["o"])
        if e["ar"]:
            if isinstance(o, (Cell, ElemLV)): o = self.load(o)
            o = self.deref(o, e["loc"]) if not isinstance(o, Obj) else o
        elif isinstance(o, (Cell, ElemLV)): 
            v = self.load(o)
            if not isinstance(v, SC): o = v
        f = self.F[str(e["f"])]
        args = [self.ev(x) for x in e["a"]]
        if isinstance(o, Obj) and o.caps is not None: return self.invoke(e["f"], args, this=o.this, cl=o, loc=e["loc"])
        return self.invoke(e["f"], args, this=o, loc=e["loc"])
    def e_op(self, e):
        f = self.F[str(e["f"])]
        args = [self.ev(x) for x in e["a"]]
        if e["mt"]:
            o = args[0]
            if isinstance(o, (Cell, ElemLV)):
                v = self.load(o)
                if isinstance(v, (Obj, Std, Seq)): o = v
            if e["o"] == "=" and "body" not in f and isinstance(o, Obj): return self.assign(o, args[1])
            if isinstance(o, Obj) and o.caps is not None: return self.invoke(e["f"], args[1:], this=o.this, cl=o, loc=e["loc"])
            return self.invoke(e["f"], args[1:], this=o, loc=e["loc"])
        return self.invoke(e["f"], args, loc=e["loc"])
    def assign(self, o, v):
        """memberwise assignment"""
        if isinstance(v, (Cell, ElemLV)): v = self.load(v)
        if isinstance(o, Obj):
            if o.caps is not None: raise Unsupported("closure assignment")
            for k in list(o.f):
                if k in v.f: self.assign_storage(o.f[k], v.f[k])
            return o
        raise Unsupported("assign")
    def assign_storage(self, d, s):
        if isinstance(d, Cell): self.write(d, self.load(s) if isinstance(s, (Cell, ElemLV)) else s); return
        if isinstance(d, ElemLV): self.store(d, self.load(s) if isinstance(s, (Cell, ElemLV)) else s); return
        if isinstance(d, Obj):
            r = self.R[str(d.rec)]
            am = self.user_assign(d.rec)
            if am is not None: self.invoke(am, [s], this=d); return
            self.assign(d, s); return
        if isinstance(d, Std): self.stl.assign(self, d, s); return
        if isinstance(d, Seq): self.stl.assign_seq(self, d, s); return
        raise Unsupported("assign storage")
    def user_assign(self, rec):
        key = ("asg", rec)
        if key not in self.strid:
            r = None
            for fid, f in self.F.items():
                if f.get("cls") == rec and f["sn"] == "operator=" and "body" in f and not f.get("dft"): r = int(fid); break
            self.strid[key] = r
        return self.strid[key]
    # ---------------------------------------------------------------- harness intrinsics
    def get_cores(self):
        if self.cores is None: self.cores = fresh("cores")
        if atom_of(self.cores).id not in self.ctx.rng: self.ctx.index(self.cores, 0, None)
        return self.cores
    def thread_started(self): self.assumed.add("a started thread runs to completion before join returns (interleavings: see property on parallel loops)")
    def getouts(self): return self.ghost.c["outs"].v
    def getvals(self): return self.ghost.c["vals"].v
