"""Assumed contracts of the C++ standard library (and libc) functions that the verified code calls.

These are the trusted base: each handler states what the library function does.  Anything without a handler
raises Unsupported, which turns the enclosing obligation into 'not decided' (never into a violation).
"""
from fractions import Fraction as Fr
import terms as T
from terms import *
from interp import *
import interp as I

MATH1 = {"exp": "exp", "log": "log", "sqrt": "sqrt", "abs": "abs", "fabs": "abs", "tanh": "tanh", "sinh": "sinh", "cosh": "cosh", "sin": "sin", "cos": "cos",
         "tan": "tan", "asin": "asin", "acos": "acos", "atan": "atan", "asinh": "asinh", "acosh": "acosh", "atanh": "atanh", "cbrt": "cbrt", "erf": "erf",
         "erfc": "erfc", "exp2": "exp2", "expm1": "expm1", "log2": "log2", "log10": "log10", "log1p": "log1p", "tgamma": "tgamma", "lgamma": "lgamma",
         "floor": "floor", "ceil": "ceil", "round": "round", "trunc": "trunc", "rint": "rint", "nearbyint": "nearbyint", "lrint": "lrint", "lround": "lround",
         "llrint": "llrint", "llround": "llround"}
MATH2 = {"pow", "atan2", "fmod", "hypot", "fmax", "fmin"}
def base(n): return n.rsplit("::", 1)[-1]
def is_math(n): return base(n) in MATH1 or base(n) in MATH2
def norm_math(name, *a):
    if name == "exp2": return fn("pow", P(2), a[0])
    if name == "expm1": return fn("exp", a[0]) - 1
    if name == "log1p": return fn("log", 1 + a[0])
    if name == "log2": return fn("log", a[0]) / fn("log", P(2))
    if name == "log10": return fn("log", a[0]) / fn("log", P(10))
    if name == "erfc": return 1 - fn("erf", a[0])
    if name == "fmax": return ite(lt(a[0], a[1]), a[1], a[0])
    if name == "fmin": return ite(lt(a[1], a[0]), a[1], a[0])
    if name == "hypot": return fn("sqrt", a[0] * a[0] + a[1] * a[1])
    return fn(name, *a)

ITER = {"__gnu_cxx::__normal_iterator", "std::move_iterator"}
SPTR = {"std::shared_ptr", "std::__shared_ptr", "std::__shared_ptr_access", "std::unique_ptr"}
SEQREC = {"std::vector", "std::array", "std::initializer_list", "std::deque", "std::list", "std::span"}
MAPREC = {"std::map", "std::unordered_map", "std::set", "std::unordered_set", "std::multimap", "std::unordered_multimap"}
NODEIT = {"std::_Rb_tree_const_iterator", "std::_Rb_tree_iterator", "std::__detail::_Node_iterator", "std::__detail::_Node_iterator_base", "std::__detail::_Node_const_iterator", "std::_Fwd_list_iterator"}
OPAQUE_CLASSES = {"std::allocator", "std::hash", "std::equal_to", "std::less", "std::basic_ostream", "std::basic_istream", "std::basic_stringstream", "std::basic_ofstream", "std::basic_ifstream",
                  "std::basic_ostringstream", "std::ios_base", "std::char_traits", "std::mutex", "std::random_device", "std::tuple_size", "std::basic_ios", "std::basic_istringstream"}

def ival(m, v):
    if isinstance(v, (Cell, ElemLV)): v = m.load(v)
    return v
def elem_type(m, r):
    ta = r.get("ta") or []
    return ta[0]["t"] if ta and "t" in ta[0] else None
def mkseq(m, et, items=None, size=None, arr=None):
    return Seq(m, m.elemkind(et) if et is not None else "obj", items, arr, size, et)
def fresh_storage(m, et, v=None):
    """element storage for type et, initialised by copying v (or default)"""
    if v is None:
        k = m.tk(et)
        if k in ("int", "float"): return Cell(m, ZERO)
        if k == "bool": return Cell(m, False)
        if k == "ptr": return Cell(m, NULL)
        return m.default_storage(et)
    if isinstance(v, (Cell, ElemLV)): v = m.load(v)
    if isinstance(v, SC): return Cell(m, v)
    return m.copy(v)

# ---------------------------------------------------------------- default construction
def default(m, r, t):
    n = r["n"]
    if n in ITER or n in SPTR or n in NODEIT or n == "std::reverse_iterator": return Cell(m, NULL)
    if n == "std::array":
        ta = r["ta"]; cnt = int(ta[1]["i"]); et = ta[0]["t"]
        if m.elemkind(et) != "obj" and cnt > 64: return m.new_arr_seq(m.elemkind(et), cnt, et=et)
        return mkseq(m, et, tuple(m.default_storage(et) for _ in range(cnt)))
    if n == "std::thread": return Cell(m, ZERO)
    if n in SEQREC:
        et = elem_type(m, r)
        return mkseq(m, et, None, 0, Const(0)) if is_thread(m, et) else mkseq(m, et, ())
    if n in MAPREC: return Std(m, "map", d=())
    if n == "std::basic_string": return Std(m, "str", v="")
    if n == "std::function": return Std(m, "function", f=None)
    if n == "std::any": return Std(m, "any", v=None)
    if n == "std::optional": return Std(m, "optional", v=None)
    if n in ("std::tuple", "std::pair"):
        ts = tuple_types(r); o = Std(m, "tuple"); o.x = [m.default_storage(x) for x in ts]; return o
    o = Std(m, "opaque"); o.x = n; return o
def tuple_types(r):
    out = []
    for a in r["ta"]:
        if "t" in a: out.append(a["t"])
        elif "p" in a: out.extend(x["t"] for x in a["p"])
    return out
def mktuple(m, items, x=None):
    o = Std(m, "tuple"); o.x = items; return o

# ---------------------------------------------------------------- construction
def seq_from_range(m, et, a, b):
    n = idist(m, a, b)
    return seq_copy_n(m, et, a, n)
def seq_copy_n(m, et, a, n):
    c = P(n)
    if c.is_const():
        items = []
        for i in range(int(c.const())):
            items.append(fresh_storage(m, et, ideref(m, a))); a = iadd(m, a, 1)
        return mkseq(m, et, tuple(items))
    s = mkseq(m, et, None, c, Const(0))
    copy_range(m, a, c, Ptr(s, 0))
    return s
def is_thread(m, et):
    r = m.recof(et) if et is not None else None
    return r is not None and r["n"] == "std::thread"
def start_thread(m, args, loc=None):
    """a thread object is a number: 1 while it runs, 0 once joined (or empty)"""
    m.thread_started(); fv = ival(m, args[0])
    if isinstance(fv, Obj) and fv.caps is not None and m.frames:
        loc_ = [v for fr in m.frames[-1:] for v in fr["l"].values() if isinstance(v, Cell)]
        for v in fv.caps.values():
            if isinstance(v, Cell) and any(v is x for x in loc_): m.threadcaps.append(v)
    c = m.ghost.c["started"]; m.write(c, c.v + 1)
    a = [Cell(m, x) if isinstance(x, SC) else x for x in [ival(m, y) for y in args[1:]]]
    stamp, j = m.births, m.mark()
    m.call_value(fv, a, loc)
    from interp import OwnedCell
    if any(x.birth <= stamp and not (isinstance(x, OwnedCell) and x is getattr(x.owner, "arr", None)) and not (type(v) is type(x.v) and v == x.v) for x, v in m.journal[j:]):
        m.fail("no data race: a thread writes no variable that others use", loc, "a variable outside the thread is written")
    m.proved_("no data race: a thread writes no variable that others use", loc)
    return ONE
def construct(m, r, t, args, e, f=None):
    n = r["n"]
    if e.get("copy") and args:
        v = args[0]
        if isinstance(v, (Cell, ElemLV)): return m.load(v)
        if isinstance(v, SC): return v
        return m.copy(v)
    if n in ITER:
        return ival(m, args[0]) if args else NULL
    if n == "std::reverse_iterator":
        v = ival(m, args[0]) if args else NULL
        return v if isinstance(v, RPtr) else RPtr(v)
    if n in SPTR:
        if not args: return NULL
        return ival(m, args[0])
    if n in NODEIT: return ival(m, args[0]) if args else NULL
    if n == "std::initializer_list":
        return args[0] if args else mkseq(m, elem_type(m, r), ())
    if n == "std::vector":
        et = elem_type(m, r)
        args = [a for a in args if not (isinstance(a, Std) and a.kind == "opaque" and str(a.x).endswith("llocator")) and not (isinstance(a, Obj) and "llocator" in m.R[str(a.rec)]["n"])]
        if not args: return default(m, r, t)
        a0 = ival(m, args[0])
        if isinstance(a0, Seq): return m.copy(a0)
        pt = m.tk(m.strip(f["ps"][0]["t"])) if f else None
        if len(args) == 1 or (len(args) == 2 and isinstance(a0, Poly)):
            cnt = m.num(a0)
            v = args[1] if len(args) == 2 else None
            if cnt.is_const() and int(cnt.const()) <= 4096: return mkseq(m, et, tuple(fresh_storage(m, et, v) for _ in range(int(cnt.const()))))
            if m.elemkind(et) == "obj": raise Unsupported("vector of objects of symbolic size")
            return mkseq(m, et, None, cnt, Const(m.num(ival(m, v)) if v is not None else 0))
        return seq_from_range(m, et, a0, ival(m, args[1]))
    if n == "std::array":
        if args and isinstance(args[0], Seq): return args[0] if e["k"] == "ilist" else m.copy(args[0])
        return default(m, r, t) if not args else mkseq(m, elem_type(m, r), tuple(fresh_storage(m, elem_type(m, r), a) for a in args))
    if n == "std::function":
        if not args or ival(m, args[0]) is NULL: return Std(m, "function", f=None)
        v = ival(m, args[0])
        if isinstance(v, Std) and v.kind == "function": return m.copy(v)
        return Std(m, "function", f=m.copy(v) if isinstance(v, Obj) else v)
    if n in ("std::tuple", "std::pair"):
        ts = tuple_types(r)
        if len(args) == 1 and len(ts) != 1:
            v = ival(m, args[0])
            if isinstance(v, Std) and v.kind == "tuple": args = v.x
        if len(args) == 0: return default(m, r, t)
        if len(args) != len(ts): raise Unsupported("tuple construction")
        out = []
        for ty, a in zip(ts, args):
            if m.tk(ty) == "ref":
                out.append(Cell(m, a) if isinstance(a, SC) else a)
            else: out.append(convert(m, ty, a))
        return mktuple(m, out)
    if n == "std::basic_string":
        v = ival(m, args[0]) if args else None
        return Std(m, "str", v=strof(v) if args else "")
    if n == "std::any":
        v = ival(m, args[0]) if args else None
        return Std(m, "any", v=(m.copy(v) if not isinstance(v, SC) else Cell(m, v)) if args else None)
    if n == "std::optional":
        return Std(m, "optional", v=fresh_storage(m, elem_type(m, r), args[0]) if args else None)
    if n == "std::thread":
        if not args: return ZERO
        v = ival(m, args[0])
        if isinstance(v, Poly) and len(args) == 1: return v       # move
        return start_thread(m, args)
    if n in MAPREC:
        o = Std(m, "map", d=())
        if args:
            v = ival(m, args[0])
            if isinstance(v, Seq) and v.items.v is not None:
                for p in v.items.v:
                    if isinstance(p, Std) and p.kind == "tuple": map_put(m, o, keyof(m, p.x[0]), m.copy(p.x[1]) if not isinstance(p.x[1], SC) else Cell(m, p.x[1]), p.x[0])
        return o
    if n in ("std::normal_distribution", "std::uniform_real_distribution", "std::bernoulli_distribution", "std::poisson_distribution", "std::uniform_int_distribution"):
        o = Std(m, "dist"); o.x = (n, [m.num(ival(m, a)) if not isinstance(ival(m, a), Std) else None for a in args]); return o
    o = Std(m, "opaque"); o.x = n; return o
def convert(m, ty, a):
    v = ival(m, a) if isinstance(a, (Cell, ElemLV)) else a
    if isinstance(v, SC): return Cell(m, v)
    r = m.recof(ty) if m.tk(ty) == "rec" else None
    if r is not None and r["n"] == "std::basic_string": return Std(m, "str", v=strof(v))
    return m.copy(v)
def strof(v):
    if isinstance(v, str): return v
    if isinstance(v, Std) and v.kind == "str": return v.c["v"].v
    if isinstance(v, Ptr) or v is None: return None
    return None

# ---------------------------------------------------------------- copy / assign / members
def copy(m, v):
    k = v.kind
    if k == "tuple": return mktuple(m, [m.copy(x) if not isinstance(x, SC) else x for x in v.x])
    if k == "map":
        return Std(m, "map", d=tuple((kk, m.copy(s), ks) for kk, s, ks in v.c["d"].v))
    if k == "function":
        f = v.c["f"].v
        return Std(m, "function", f=m.copy(f) if isinstance(f, (Obj, Std)) else f)
    if k in ("any", "optional"):
        x = v.c["v"].v
        return Std(m, k, v=m.copy(x) if x is not None else None)
    o = Std(m, k); o.x = v.x
    for kk, c in v.c.items(): o.c[kk] = Cell(m, c.v)
    return o
def assign(m, d, s):
    if isinstance(s, (Cell, ElemLV)): s = m.load(s)
    if d.kind == "tuple":
        xs = s.x
        for a, b in zip(d.x, xs): m.assign_storage(a, b)
        return
    if isinstance(s, Std) and s.kind == d.kind:
        c = copy(m, s)
        for kk in d.c: m.write(d.c[kk], c.c[kk].v)
        if d.kind == "opaque": return
        if not d.c: d.x = c.x
        return
    if d.kind == "function":
        m.write(d.c["f"], m.copy(s) if isinstance(s, Obj) else s); return
    if d.kind in ("any", "optional"):
        m.write(d.c["v"], m.copy(s) if not isinstance(s, SC) else Cell(m, s)); return
    if d.kind == "str": m.write(d.c["v"], strof(s)); return
    if d.kind == "opaque": return
    raise Unsupported("assignment to %s" % d.kind)
def assign_seq(m, d, s):
    if isinstance(s, (Cell, ElemLV)): s = m.load(s)
    if d is s: return
    if s.items.v is not None:
        if d.items.v is not None and d.items.v is not POISON and len(d.items.v) == len(s.items.v):
            vals = [m.load(x) if isinstance(x, (Cell, ElemLV)) else x for x in s.items.v]
            if all(isinstance(x, SC) or x is None for x in vals) and all(isinstance(x, Cell) for x in d.items.v):
                for c, v in zip(d.items.v, vals): m.write(c, v)
                return
        m.write(d.items, tuple(m.copy(x) for x in s.items.v)); m.write(d.arr, None)
    else:
        m.write(d.items, None); m.write(d.arr, s.arr.v)
    m.write(d.size, s.size.v)
def member(m, o, n):
    if o.kind == "tuple":
        if n == "first": return o.x[0]
        if n == "second": return o.x[1]
    if o.kind == "opaque": return Std(m, "opaque")
    raise Unsupported("member %s of %s" % (n, o.kind))
def deref(m, p):
    if p.kind == "optional": return p.c["v"].v
    raise Unsupported("dereference of %s" % p.kind)

# ---------------------------------------------------------------- iterators
def ideref(m, a, loc=None):
    a = ival(m, a)
    if isinstance(a, Ptr): return m.elem_lv(a, loc)
    if isinstance(a, RPtr):
        if isinstance(a.p, Ptr): return m.elem_lv(Ptr(a.p.seq, a.p.off - 1), loc)
        raise Unsupported("reverse iterator")
    if isinstance(a, MapIt): return a.mp.c["d"].v and mapit_value(m, a)
    if isinstance(a, Obj): return obj_method(m, a, "operator*", [])
    if isinstance(a, Addr): return a.lv
    raise Unsupported("dereference of iterator %r" % (a,))
def iadd(m, a, n):
    a = ival(m, a)
    if isinstance(a, Ptr): return Ptr(a.seq, a.off + P(n))
    if isinstance(a, RPtr): return RPtr(iadd(m, a.p, -P(n)))
    if isinstance(a, MapIt): return MapIt(a.mp, a.pos + n)
    if isinstance(a, Obj):
        if isinstance(n, int) and n == 1 or P(n) == ONE:
            b = m.copy(a); obj_method(m, b, "operator++", []); return b
        if find_method(m, a, "operator+=", 1) is not None:
            b = m.copy(a); obj_method(m, b, "operator+=", [Cell(m, P(n))]); return b
        return obj_method(m, a, "operator+", [Cell(m, P(n))])
    raise Unsupported("iterator arithmetic on %r" % (a,))
def idist(m, a, b):
    a, b = ival(m, a), ival(m, b)
    if isinstance(a, Ptr) and isinstance(b, Ptr):
        if a.seq is not b.seq: raise Unsupported("distance between unrelated iterators")
        return b.off - a.off
    if isinstance(a, RPtr): return idist(m, b.p, a.p)
    if isinstance(a, MapIt): return P(b.pos - a.pos)
    if isinstance(a, Obj):
        if find_method(m, b, "operator-", 1) is not None: return m.num(ival(m, obj_method(m, b, "operator-", [a])))
        f = find_free(m, "operator-", b, a, True)
        if f is not None: return m.num(ival(m, m.invoke(f, [b, a])))
    if a is NULL and b is NULL: return ZERO
    raise Unsupported("iterator distance %r %r" % (a, b))
def ieq(m, a, b):
    a, b = ival(m, a), ival(m, b)
    if isinstance(a, Ptr) and isinstance(b, Ptr):
        return eq(a.off, b.off) if a.seq is b.seq else False
    if isinstance(a, RPtr) and isinstance(b, RPtr): return ieq(m, a.p, b.p)
    if isinstance(a, MapIt): return a == b
    if a is NULL or b is NULL: return a is b
    if isinstance(a, Obj):
        f = find_method(m, a, "operator==", 1)
        if f is not None: return m.tobool(ival(m, m.invoke(f, [b], this=a)))
        f = find_free(m, "operator==", a, b)
        if f is not None: return m.tobool(ival(m, m.invoke(f, [a, b])))
        if isinstance(b, Obj) and b.rec == a.rec and defaulted_eq(m, a.rec): return fieldwise_eq(m, a, b)
    raise Unsupported("iterator comparison %r %r" % (a, b))
def defaulted_eq(m, rec):
    """the class has a defaulted operator== or operator<=> (memberwise comparison)"""
    return bool(m.R[str(rec)].get("deq"))
def fieldwise_eq(m, a, b):
    r = True
    for k in a.f:
        x, y = ival(m, a.f[k]), ival(m, b.f[k])
        r = conj(r, eq(m.num(x), m.num(y)) if isinstance(x, Poly) else ieq(m, x, y))
    return r
def find_method(m, o, name, nargs):
    key = ("meth", o.rec, name, nargs)
    if key not in m.strid:
        r = None
        recs = [o.rec]; i = 0
        while i < len(recs):
            rr = m.R[str(recs[i])]
            for fid, f in m.F.items():
                if f.get("cls") == recs[i] and f["sn"] == name and len(f["ps"]) == nargs and "body" in f: r = int(fid); break
            if r is not None: break
            for bt in rr.get("bases", []):
                tt = m.TY[m.strip(bt)]
                if tt["k"] == "rec": recs.append(tt["d"])
            i += 1
        m.strid[key] = r
    return m.strid[key]
def find_free(m, name, a, b, both=False):
    for fid, f in m.F.items():
        if f["sn"] == name and "cls" not in f and len(f["ps"]) == 2 and "body" in f:
            t = m.ty(m.strip(f["ps"][0]["t"]))
            if t["k"] == "rec" and t["d"] == a.rec:
                if both:
                    t2 = m.ty(m.strip(f["ps"][1]["t"]))
                    if t2["k"] != "rec" or t2["d"] != b.rec: continue
                return int(fid)
    return None
def obj_method(m, o, name, args):
    f = find_method(m, o, name, len(args))
    if f is None: raise Unsupported("method %s of %s not instantiated" % (name, m.R[str(o.rec)]["n"]))
    return m.invoke(f, args, this=o)

def check_range(m, p, n, loc, what):
    """[p, p+n) lies inside the sequence"""
    c = P(n)
    if c.is_const() and c.const() == 0: return
    if p is NULL:
        m.oblige("no null dereference", eq(n, 0), loc); return
    if not m.oblige("range within bounds (%s)" % what, conj(le(0, p.off), le(p.off + n, p.seq.size.v)), loc): pass
def isnumseq(s): return s.elem in ("int", "real", "bool")
def copy_range(m, a, n, d, loc=None):
    """*d++ = *a++ n times"""
    n = P(n); a = ival(m, a); d = ival(m, d)
    if n.is_const() and (not isinstance(a, Ptr) or not isinstance(d, Ptr) or a.seq.items.v is not None or d.seq.items.v is not None or n.const() <= 0):
        for i in range(int(n.const())):
            st = ideref(m, d, loc); m.assign_storage(st, ideref(m, a, loc))
            a = iadd(m, a, 1); d = iadd(m, d, 1)
        return d
    if isinstance(a, Ptr) and isinstance(d, Ptr) and isnumseq(a.seq) and isnumseq(d.seq):
        m.to_arr(a.seq); m.to_arr(d.seq)
        check_range(m, a, n, loc, "source"); check_range(m, d, n, loc, "destination")
        b = fresh("c"); s = m.ctx.snapshot(); m.ctx.index(b, 0, n)
        try: v = m.read_arr(a.seq.arr.v, a.off + b)
        finally: m.ctx.restore(s)
        if a.seq.elem == "real" and d.seq.elem == "int": raise Unsupported("narrowing copy")
        m.write(d.seq.arr, Lay(d.seq.arr.v, "set", [(atom_of(b), n)], True, d.off + b, v))
        return Ptr(d.seq, d.off + n)
    A0, D0 = a, d
    def body(i):
        m.assign_storage(ideref(m, iadd(m, D0, i), loc), ideref(m, iadd(m, A0, i), loc))
    m.index_loop(ZERO, n, body, loc)
    return iadd(m, D0, n)
def fill_range(m, d, n, v, loc=None):
    n = P(n); d = ival(m, d); v = ival(m, v)
    if n.is_const() and n.const() <= 0: return d
    if isinstance(d, Ptr) and isnumseq(d.seq) and (d.seq.items.v is None or not n.is_const()):
        m.to_arr(d.seq); check_range(m, d, n, loc, "fill")
        if d.off == ZERO and n == d.seq.size.v: m.write(d.seq.arr, Const(m.num(v))); return Ptr(d.seq, n)
        b = fresh("c")
        m.write(d.seq.arr, Lay(d.seq.arr.v, "set", [(atom_of(b), n)], True, d.off + b, m.num(v)))
        return Ptr(d.seq, d.off + n)
    if n.is_const():
        for i in range(int(n.const())):
            m.assign_storage(ideref(m, d, loc), v if not isinstance(v, SC) else Cell(m, v)); d = iadd(m, d, 1)
        return d
    m.index_loop(ZERO, n, lambda i: m.assign_storage(ideref(m, iadd(m, d, i), loc), Cell(m, v) if isinstance(v, SC) else v), loc)
    return iadd(m, d, n)

# ---------------------------------------------------------------- maps
def keyof(m, k):
    v = ival(m, k)
    if isinstance(v, Std) and v.kind == "str":
        return ("str", v.c["v"].v)
    if isinstance(v, Poly): return v
    if isinstance(v, (Addr, Ptr, FnVal, bool)): return v
    if isinstance(v, Obj): return v
    raise Unsupported("map key %r" % (v,))
def key_eq(m, a, b):
    if isinstance(a, Poly) and isinstance(b, Poly): return m.decide(eq(a, b))
    if isinstance(a, tuple) and isinstance(b, tuple):
        if a[1] is None or b[1] is None: raise Unsupported("unknown string key")
        return a == b
    return a == b
def map_find(m, mp, k):
    for i, (kk, s, ks) in enumerate(mp.c["d"].v):
        if key_eq(m, kk, k): return i
    return None
def map_put(m, mp, k, s, ks):
    m.write(mp.c["d"], mp.c["d"].v + ((k, s, ks),))
def mapit_value(m, it):
    kk, s, ks = it.mp.c["d"].v[it.pos]
    if s is None: return ks
    if not isinstance(ks, (Cell, Obj, Std, Seq)): ks = Cell(m, ks)
    return mktuple(m, [ks, s])

# ---------------------------------------------------------------- calls
def call_object(m, o, args, loc=None):
    if o.kind == "function":
        f = o.c["f"].v
        if f is None: m.fail("std::function is not empty", loc); raise PathAbort("empty std::function")
        return m.call_value(f, args, loc)
    if o.kind == "opaque" and isinstance(o.x, str) and o.x in FUNCTORS:
        return FUNCTORS[o.x](m, *[m.num(ival(m, a)) if not isinstance(ival(m, a), (bool, tuple)) else ival(m, a) for a in args])
    raise Unsupported("call of %s" % o.kind)
FUNCTORS = {"std::plus": lambda m, a, b: a + b, "std::minus": lambda m, a, b: a - b, "std::multiplies": lambda m, a, b: a * b, "std::divides": lambda m, a, b: a / b,
            "std::less": lambda m, a, b: lt(a, b), "std::greater": lambda m, a, b: lt(b, a), "std::equal_to": lambda m, a, b: eq(a, b), "std::negate": lambda m, a: -a}

def call(m, f, args, this, loc):
    n = f["n"]; sn = f["sn"]
    cls = m.R[str(f["cls"])]["n"] if "cls" in f else None
    if cls is not None and this is not None:
        h = METHODS.get(cls)
        if h is not None:
            r = h(m, f, sn, args, this, loc)
            if r is not NotImplemented: return r
    if cls is not None:
        h = STATICS.get((cls, sn))
        if h is not None: return h(m, f, args, loc)
    h = FREE.get(sn)
    if h is not None and (cls is None or f.get("static")):
        r = h(m, f, args, loc)
        if r is not NotImplemented: return r
    if sn in MATH1 and cls is None:
        v = m.num(ival(m, args[0]))
        r = norm_math(MATH1[sn], v)
        if MATH1[sn] in ("floor", "ceil", "round", "trunc", "rint", "nearbyint", "lrint", "lround", "llrint", "llround") and not r.is_const():
            if is_int_poly(v): return v
        if sn in ("floor", "ceil", "round", "trunc", "rint", "nearbyint") and v.is_const():
            import math
            c = Fr(v.const()); return P({"floor": math.floor, "ceil": math.ceil, "trunc": math.trunc, "rint": round, "nearbyint": round, "round": lambda q: math.floor(abs(q) + Fr(1, 2)) * (1 if q >= 0 else -1)}[sn](c))
        return r
    if sn in MATH2 and cls is None: return norm_math(sn, m.num(ival(m, args[0])), m.num(ival(m, args[1])))
    if sn in ("operator<<", "operator>>"):
        a = ival(m, args[0]) if this is None else this
        if isinstance(a, Std) and a.kind == "opaque": return a
    if "body" in f: return m.run_body(f, args, this)
    raise Unsupported("library function %s (%s) at %s" % (n, cls, loc))

def seq_method(m, f, sn, args, s, loc):
    if not isinstance(s, Seq): return NotImplemented
    sz = s.size.v
    if sn in ("begin", "cbegin", "data"): return Ptr(s, 0)
    if sn in ("end", "cend"): return Ptr(s, sz)
    if sn in ("rbegin", "crbegin"): return RPtr(Ptr(s, sz))
    if sn in ("rend", "crend"): return RPtr(Ptr(s, 0))
    if sn in ("size", "length", "max_size"): return sz
    if sn == "empty": return eq(sz, 0)
    if sn in ("operator[]", "at"):
        return m.elem_lv(Ptr(s, m.num(ival(m, args[0]))), loc)
    if sn == "front": return m.elem_lv(Ptr(s, 0), loc)
    if sn == "back": return m.elem_lv(Ptr(s, sz - 1), loc)
    if sn in ("reserve", "shrink_to_fit"): return None
    if sn == "clear":
        m.write(s.items, ()); m.write(s.arr, None); m.write(s.size, ZERO); return None
    if sn in ("push_back", "emplace_back"):
        if sn == "emplace_back" and is_thread(m, s.et) and args and not isinstance(ival(m, args[0]), Poly): args = [Cell(m, start_thread(m, args, loc))]
        if sn == "emplace_back" and len(args) != 1: raise Unsupported("emplace_back")
        if s.items.v is not None:
            m.write(s.items, s.items.v + (fresh_storage(m, s.et, args[0]),)); m.write(s.size, P(len(s.items.v)))
            return s.items.v[-1] if sn == "emplace_back" else None
        m.write(s.arr, Lay(s.arr.v, "set", [], True, sz, m.num(ival(m, args[0])))); m.write(s.size, sz + 1)
        return ElemLV(s, sz, loc)
    if sn == "pop_back":
        if s.items.v is not None: m.write(s.items, s.items.v[:-1]); m.write(s.size, P(len(s.items.v))); return None
        m.write(s.size, sz - 1); return None
    if sn == "resize":
        k = m.num(ival(m, args[0])); fillv = args[1] if len(args) > 1 else None
        if s.items.v is not None and k.is_const():
            c = int(k.const()); it = s.items.v[:c]
            it = it + tuple(fresh_storage(m, s.et, fillv) for _ in range(c - len(it)))
            m.write(s.items, it); m.write(s.size, P(c)); return None
        m.to_arr(s); 
        b = fresh("c"); m.write(s.arr, Lay(s.arr.v, "set", [(atom_of(b), k - sz)], True, sz + b, m.num(ival(m, fillv)) if fillv is not None else ZERO)) if not m.ctx.prove(le(k, sz)) else None
        m.write(s.size, k); return None
    if sn == "assign":
        a0 = ival(m, args[0])
        if isinstance(a0, Poly): assign_seq(m, s, construct(m, {"n": "std::vector", "ta": [{"t": s.et}]}, None, args, {"k": "ctor"}))
        elif isinstance(a0, Seq): assign_seq(m, s, a0)
        else: assign_seq(m, s, seq_from_range(m, s.et, a0, args[1]))
        return None
    if sn == "operator=": assign_seq(m, s, args[0]); return s
    if sn == "swap":
        o = args[0]
        for k in ("items", "arr", "size"):
            a, b = getattr(s, k), getattr(o, k); x, y = a.v, b.v; m.write(a, y); m.write(b, x)
        return None
    if sn in ("insert", "erase", "emplace"):
        if s.items.v is None: raise Unsupported("insert into a symbolic-size vector")
        pos = ival(m, args[0]); i = m.concrete_index(pos.off)
        if i is None: raise Unsupported("insert at symbolic position")
        it = s.items.v
        if not (0 <= i <= len(it)): m.fail("position within bounds", loc, "insert/erase at %d of %d" % (i, len(it))); raise PathAbort("out of bounds")
        if sn == "erase":
            j = i + 1 if len(args) == 1 else m.concrete_index(ival(m, args[1]).off)
            if not (i <= j <= len(it)): m.fail("position within bounds", loc, "erase"); raise PathAbort("out of bounds")
            it = it[:i] + it[j:]
        else:
            if len(args) == 2:
                x = ival(m, args[1])
                if isinstance(x, Seq) and s.elem != "obj": new = tuple(fresh_storage(m, s.et, y) for y in x.items.v)
                else: new = (fresh_storage(m, s.et, args[1]),)
            elif isinstance(ival(m, args[1]), Poly):
                new = tuple(fresh_storage(m, s.et, args[2]) for _ in range(m.concrete_index(m.num(ival(m, args[1])))))
            else:
                q = seq_from_range(m, s.et, ival(m, args[1]), ival(m, args[2]))
                if q.items.v is None: raise Unsupported("insert of symbolic range")
                new = q.items.v
            it = it[:i] + new + it[i:]
        m.write(s.items, it); m.write(s.size, P(len(it)))
        return Ptr(s, i)
    if sn.startswith("~"): return None
    if sn == "get_allocator": return Std(m, "opaque")
    return NotImplemented
def iter_method(m, f, sn, args, this, loc):
    v = ival(m, this)
    if sn == "operator*": return ideref(m, v, loc)
    if sn == "operator->":
        lv = ideref(m, v, loc); return Addr(lv)
    if sn == "base": return v.p if isinstance(v, RPtr) else v
    if sn == "operator++" or sn == "operator--":
        d = 1 if sn == "operator++" else -1
        m.store(this, iadd(m, v, d))
        return v if args else this
    if sn == "operator+": return iadd(m, v, m.num(ival(m, args[0])))
    if sn == "operator-":
        a = ival(m, args[0])
        return iadd(m, v, -m.num(a)) if isinstance(a, Poly) else idist(m, a, v)
    if sn in ("operator+=", "operator-="):
        k = m.num(ival(m, args[0])); m.store(this, iadd(m, v, k if sn == "operator+=" else -k)); return this
    if sn == "operator[]": return ideref(m, iadd(m, v, m.num(ival(m, args[0]))), loc)
    if sn == "operator=": m.store(this, ival(m, args[0])); return this
    if sn in ("operator==", "operator!="):
        r = ieq(m, v, args[0]); return r if sn == "operator==" else neg(r)
    return NotImplemented
def sptr_method(m, f, sn, args, this, loc):
    v = ival(m, this)
    if sn in ("operator*", "operator->", "get", "_M_get"):
        if sn == "operator*":
            if v is NULL: m.fail("no null dereference", loc); raise PathAbort("null dereference")
            return m.deref(v, loc)
        return v
    if sn == "operator bool": return v is not NULL
    if sn == "operator=": m.store(this, ival(m, args[0])); return this
    if sn == "reset": m.store(this, ival(m, args[0]) if args else NULL); return None
    if sn == "use_count": raise Unsupported("use_count")
    if sn == "swap":
        w = ival(m, args[0]); m.store(this, w); m.store(args[0], v); return None
    return NotImplemented
def str_method(m, f, sn, args, this, loc):
    if not isinstance(this, Std) or this.kind != "str": return NotImplemented
    v = this.c["v"].v
    if sn in ("operator=",): m.write(this.c["v"], strof(ival(m, args[0]))); return this
    if sn in ("operator+=", "append"):
        w = strof(ival(m, args[0])); m.write(this.c["v"], v + w if v is not None and w is not None else None); return this
    if sn in ("size", "length"):
        if v is not None: return P(len(v))
    if sn == "empty" and v is not None: return len(v) == 0
    if sn in ("c_str", "data"): return this
    if sn in ("begin", "end"): return Std(m, "opaque")
    return NotImplemented
def map_method(m, f, sn, args, this, loc):
    if not isinstance(this, Std) or this.kind != "map": return NotImplemented
    d = this.c["d"].v
    cls = m.R[str(f["cls"])]; isset = cls["n"].endswith("set")
    if sn in ("begin", "cbegin"): return MapIt(this, 0)
    if sn in ("end", "cend"): return MapIt(this, len(d))
    if sn == "size": return P(len(d))
    if sn == "empty": return len(d) == 0
    if sn == "find":
        i = map_find(m, this, keyof(m, args[0])); return MapIt(this, len(d) if i is None else i)
    if sn in ("count", "contains"):
        i = map_find(m, this, keyof(m, args[0]))
        return (i is not None) if sn == "contains" else P(0 if i is None else 1)
    if sn == "clear": m.write(this.c["d"], ()); return None
    if sn in ("operator[]", "at"):
        k = keyof(m, args[0]); i = map_find(m, this, k)
        if i is not None: return d[i][1]
        if sn == "at": raise PathAbort("map::at")
        vt = cls["ta"][1]["t"]; s = fresh_storage(m, vt)
        map_put(m, this, k, s, m.copy(ival(m, args[0])) if not isinstance(ival(m, args[0]), SC) else Cell(m, ival(m, args[0]))); return s
    if sn in ("insert", "emplace", "insert_or_assign", "try_emplace"):
        if isset: ks = args[0]; s = None
        elif len(args) == 1:
            p = ival(m, args[0]); ks, s = p.x
        else: ks, s = args[0], args[1]
        k = keyof(m, ks); kv = ival(m, ks); ks2 = Cell(m, kv) if isinstance(kv, SC) else m.copy(kv)
        multi = "multi" in cls["n"]
        i = None if multi else map_find(m, this, k)
        if i is None:
            if s is not None:
                sv = ival(m, s); s = Cell(m, sv) if isinstance(sv, SC) else m.copy(sv)
            map_put(m, this, k, s, ks2); i = len(d)
            return mktuple(m, [Cell(m, MapIt(this, i)), Cell(m, True)]) if not multi else MapIt(this, i)
        if sn == "insert_or_assign": m.assign_storage(d[i][1], s if not isinstance(s, SC) else Cell(m, s))
        return mktuple(m, [Cell(m, MapIt(this, i)), Cell(m, False)])
    if sn == "erase":
        a = ival(m, args[0])
        if isinstance(a, MapIt): m.write(this.c["d"], d[:a.pos] + d[a.pos + 1:]); return MapIt(this, a.pos)
        i = map_find(m, this, keyof(m, args[0]))
        if i is None: return ZERO
        m.write(this.c["d"], d[:i] + d[i + 1:]); return ONE
    if sn == "operator=": assign(m, this, args[0]); return this
    return NotImplemented
def node_method(m, f, sn, args, this, loc):
    v = ival(m, this)
    if sn == "operator*": return ideref(m, v)
    if sn == "operator->": return Addr(ideref(m, v))
    return iter_method(m, f, sn, args, this, loc)
def fun_method(m, f, sn, args, this, loc):
    if not isinstance(this, Std) or this.kind != "function": return NotImplemented
    if sn == "operator()": return call_object(m, this, args, loc)
    if sn == "operator bool": return this.c["f"].v is not None
    if sn == "operator=": assign(m, this, ival(m, args[0])); return this
    return NotImplemented
def any_method(m, f, sn, args, this, loc):
    if not isinstance(this, Std) or this.kind not in ("any", "optional"): return NotImplemented
    if sn == "has_value" or sn == "operator bool": return this.c["v"].v is not None
    if sn == "operator=": assign(m, this, ival(m, args[0])); return this
    if sn == "reset": m.write(this.c["v"], None); return None
    if sn in ("value", "operator*", "operator->"):
        x = this.c["v"].v
        return Addr(x) if sn == "operator->" else x
    if sn == "emplace": assign(m, this, ival(m, args[0])); return this.c["v"].v
    return NotImplemented
def tup_method(m, f, sn, args, this, loc):
    if sn == "operator=": 
        assign(m, this, args[0]); return this
    if sn == "swap":
        raise Unsupported("tuple swap")
    return NotImplemented
def opaque_method(m, f, sn, args, this, loc):
    if isinstance(this, Std) and this.kind == "opaque":
        if sn.startswith("operator bool") or sn in ("good", "is_open"): raise Unsupported("stream state")
        if sn in ("str",): return Std(m, "str", v=None)
        if sn in ("operator<<", "operator>>", "operator=", "precision", "flush", "setf", "width", "open", "close", "seed", "write"): return this
    return NotImplemented
def alloc_method(m, f, sn, args, this, loc):
    if sn == "allocate":
        et = elem_type(m, m.R[str(f["cls"])]); return Ptr(m.new_arr_seq("int" if m.elemkind(et) != "real" else "real", m.num(ival(m, args[0])), et=et), 0)
    if sn == "deallocate": return None
    return NotImplemented
def thread_method(m, f, sn, args, this, loc):
    if not isinstance(this, (Cell, ElemLV)): return NotImplemented
    if sn == "join":
        m.oblige("joined thread is joinable", eq(m.num(m.load(this)), 1), loc); m.store(this, ZERO)
        c = m.ghost.c["joined"]; m.write(c, c.v + 1); return None
    if sn == "detach": m.fail("every thread is joined before the function returns", loc, "detached thread"); return None
    if sn == "joinable": return eq(m.num(m.load(this)), 1)
    if sn == "operator=": m.store(this, ival(m, args[0])); return this
    return NotImplemented
def dist_method(m, f, sn, args, this, loc):
    if sn == "operator()" and isinstance(this, Std) and this.kind == "dist":
        kind, ps = this.x; m.assumed.add("random distributions return an arbitrary value of their range")
        if len(args) == 2 and isinstance(ival(m, args[1]), Std): ps = ival(m, args[1]).x[1]      # param_type
        c = m.ghost.c["draw"]; k = c.v; m.write(c, k + 1)      # an arbitrary stream of draws: the k-th draw is read from it
        if kind == "std::uniform_real_distribution":
            lo, hi = ps if len(ps) == 2 else (ZERO, ONE)
            T.DOMAIN["rng:u"] = 8; x = lo + (hi - lo) * read("rng:u", k)
        elif kind == "std::normal_distribution":
            mu, sd = ps if len(ps) == 2 else (ZERO, ONE)
            x = mu + sd * read("rng:n", k)
        elif kind == "std::uniform_int_distribution":
            lo, hi = ps; x = fn("rngint", lo, hi, k, sort="int")
        else: raise Unsupported("distribution " + kind)
        return x
    return NotImplemented
def hash_method(m, f, sn, args, this, loc):
    if sn == "operator()": return fresh("hash")
    return NotImplemented
METHODS = {}
for k in SEQREC: METHODS[k] = seq_method
for k in ITER | {"std::reverse_iterator"}: METHODS[k] = iter_method
for k in SPTR: METHODS[k] = sptr_method
for k in MAPREC: METHODS[k] = map_method
for k in NODEIT: METHODS[k] = node_method
METHODS["std::basic_string"] = str_method
METHODS["std::function"] = fun_method
METHODS["std::any"] = any_method; METHODS["std::optional"] = any_method
METHODS["std::tuple"] = tup_method; METHODS["std::pair"] = tup_method
METHODS["std::allocator"] = alloc_method
METHODS["std::thread"] = thread_method
METHODS["std::hash"] = hash_method
for k in ("std::normal_distribution", "std::uniform_real_distribution", "std::bernoulli_distribution", "std::poisson_distribution", "std::uniform_int_distribution"): METHODS[k] = dist_method
for k in ("std::basic_ostream", "std::basic_istream", "std::basic_stringstream", "std::basic_ofstream", "std::basic_ifstream", "std::basic_ostringstream", "std::basic_istringstream", "std::ios_base", "std::basic_ios", "std::mersenne_twister_engine"): METHODS[k] = opaque_method

# numeric limits
def limits(name):
    def h(m, f, args, loc):
        t = m.ty(f["rt"])
        if t["k"] == "float":
            if t["w"] == 32: mx, mn, eps = Fr(float.fromhex("0x1.fffffep127")), Fr(float.fromhex("0x1p-126")), Fr(1, 2**23)
            else: mx, mn, eps = Fr(float.fromhex("0x1.fffffffffffffp1023")), Fr(float.fromhex("0x1p-1022")), Fr(1, 2**52)
            return P({"max": mx, "min": mn, "lowest": -mx, "epsilon": eps}[name])
        w = t["w"]; sg = t["sg"]
        mx = (1 << (w - 1)) - 1 if sg else (1 << w) - 1
        return P({"max": mx, "min": -mx - 1 if sg else 0, "lowest": -mx - 1 if sg else 0, "epsilon": 0}[name])
    return h
STATICS = {("std::numeric_limits", k): limits(k) for k in ("max", "min", "lowest", "epsilon")}
STATICS[("std::thread", "hardware_concurrency")] = lambda m, f, args, loc: m.get_cores()

# ---- free functions
FREE = {}
def free(*names):
    def d(h):
        for n in names: FREE[n] = h
        return h
    return d
@free("abort", "terminate", "exit", "_Exit", "quick_exit", "__throw_bad_function_call", "__assert_fail")
def f_abort(m, f, args, loc): raise PathAbort("abort at %s" % loc)
@free("move", "forward", "as_const", "ref", "cref", "to_address", "addressof", "__addressof")
def f_move(m, f, args, loc):
    if f["sn"] in ("addressof", "__addressof"):
        a = args[0]
        return Ptr(a.seq, a.off) if isinstance(a, ElemLV) else Addr(a)
    if len(args) == 3: return copy_range(m, args[0], idist(m, args[0], args[1]), args[2], loc)
    return args[0]
@free("accumulate", "reduce")
def f_accumulate(m, f, args, loc):
    a, b = ival(m, args[0]), ival(m, args[1])
    init = ival(m, args[2]) if len(args) > 2 else ZERO
    op = args[3] if len(args) > 3 else None
    # accumulator has the type of init
    acc = Cell(m, init) if isinstance(init, SC) else m.copy(init)
    it = f["ps"][2]["t"] if len(args) > 2 else None
    intacc = it is not None and m.tk(m.strip(it)) == "int"
    def step(x):
        if op is None:
            r = m.num(ival(m, acc)) + m.num(ival(m, x))
        else: r = ival(m, m.call_value(ival(m, op), [acc, x], loc))
        if intacc and isinstance(r, Poly) and not is_int_poly(r): r = fn("trunc", r, sort="int")
        m.assign_storage(acc, Cell(m, r) if isinstance(r, SC) else r)
    iterate(m, a, b, step, loc)
    return ival(m, acc)
def iterate(m, a, b, step, loc):
    """step(element) for every element of [a,b)"""
    try: n = idist(m, a, b)
    except Unsupported: n = None
    if n is None:
        it = Cell(m, a) if isinstance(a, SC) else m.copy(a)
        return m.run_loop(lambda: neg(ieq(m, it, b)), lambda: step(ideref(m, it, loc)) and None, lambda: m.assign_storage(it, Cell(m, iadd(m, it, 1)) if isinstance(it, Cell) else iadd(m, it, 1)), loc)
    if n.is_const():
        k = int(n.const())
        if k < 0: m.fail("range is valid", loc, "last before first"); raise PathAbort("invalid range")
        for i in range(k):
            step(ideref(m, a, loc)); a = iadd(m, a, 1) if i + 1 < k else a
        return
    m.oblige("range is valid", le(0, n), loc)
    m.index_loop(ZERO, n, lambda i: (step(ideref(m, iadd(m, a, i), loc)), None)[1], loc)
@free("copy")
def f_copy(m, f, args, loc):
    a, b, d = ival(m, args[0]), ival(m, args[1]), ival(m, args[2])
    if a is NULL and b is NULL: return d
    if isinstance(d, BackIns):
        iterate(m, a, b, lambda x: seq_method(m, {}, "push_back", [x], d.seq, loc) and None, loc); return d
    return copy_range(m, a, idist(m, a, b), d, loc)
@free("back_inserter")
def f_backins(m, f, args, loc): return BackIns(args[0])
@free("copy_if")
def f_copy_if(m, f, args, loc):
    a, b, d = ival(m, args[0]), ival(m, args[1]), ival(m, args[2]); n = idist(m, a, b)
    if not n.is_const() or not isinstance(d, BackIns): raise Unsupported("copy_if")
    for i in range(int(n.const())):
        x = ideref(m, iadd(m, a, i), loc)
        if m.decide(m.tobool(ival(m, m.call_value(ival(m, args[3]), [x], loc)))): seq_method(m, {}, "push_back", [x], d.seq, loc)
    return d
@free("copy_n")
def f_copy_n(m, f, args, loc):
    return copy_range(m, ival(m, args[0]), m.num(ival(m, args[1])), ival(m, args[2]), loc)
@free("fill")
def f_fill(m, f, args, loc):
    a, b = ival(m, args[0]), ival(m, args[1])
    if a is NULL and b is NULL: return None
    fill_range(m, a, idist(m, a, b), args[2], loc); return None
@free("fill_n")
def f_fill_n(m, f, args, loc): return fill_range(m, args[0], m.num(ival(m, args[1])), args[2], loc)
@free("memset", "__builtin_memset")
def f_memset(m, f, args, loc):
    p = ival(m, args[0]); v = m.num(ival(m, args[1])); n = m.num(ival(m, args[2]))
    if p is NULL: m.oblige("no null dereference", eq(n, 0), loc); return p
    if not isinstance(p, Ptr): raise Unsupported("memset")
    if v != ZERO: raise Unsupported("memset to nonzero")
    es = esize(m, p.seq); k = n if es == 1 else idiv(n, P(es))
    if es != 1 and k * es != n: raise Unsupported("memset of partial elements")
    fill_range(m, p, k, ZERO, loc); return p
def esize(m, s):
    if s.et is None: return 1
    t = m.ty(s.et)
    if "w" in t: return t["w"] // 8
    return 1
@free("memcpy", "memmove")
def f_memcpy(m, f, args, loc):
    d, s, n = ival(m, args[0]), ival(m, args[1]), m.num(ival(m, args[2]))
    es = esize(m, s.seq); k = idiv(n, P(es))
    if k * es != n: raise Unsupported("memcpy of partial elements")
    copy_range(m, s, k, d, loc); return d
@free("distance")
def f_distance(m, f, args, loc): return idist(m, args[0], args[1])
@free("advance")
def f_advance(m, f, args, loc):
    v = iadd(m, args[0], m.num(ival(m, args[1])))
    m.assign_storage(args[0], Cell(m, v) if isinstance(v, SC) else v); return None
@free("next")
def f_next(m, f, args, loc): return iadd(m, args[0], m.num(ival(m, args[1])) if len(args) > 1 else ONE)
@free("prev")
def f_prev(m, f, args, loc): return iadd(m, args[0], -(m.num(ival(m, args[1])) if len(args) > 1 else ONE))
@free("begin", "cbegin", "data")
def f_begin(m, f, args, loc):
    if isinstance(args[0], Seq): return Ptr(args[0], 0)
    return NotImplemented
@free("end", "cend")
def f_end(m, f, args, loc):
    if isinstance(args[0], Seq): return Ptr(args[0], args[0].size.v)
    return NotImplemented
@free("rbegin")
def f_rbegin(m, f, args, loc): return RPtr(Ptr(args[0], args[0].size.v)) if isinstance(args[0], Seq) else NotImplemented
@free("rend")
def f_rend(m, f, args, loc): return RPtr(Ptr(args[0], 0)) if isinstance(args[0], Seq) else NotImplemented
@free("size", "ssize")
def f_size(m, f, args, loc):
    return args[0].size.v if isinstance(args[0], Seq) else NotImplemented
@free("make_reverse_iterator")
def f_mri(m, f, args, loc): return RPtr(ival(m, args[0]))
@free("min", "max")
def f_minmax(m, f, args, loc):
    isl = isinstance(args[0], Seq)
    xs = list(args[0].items.v) if isl else args[:2]
    cmp_ = args[2] if not isl and len(args) > 2 else None
    if cmp_ is not None: raise Unsupported("min/max with comparator")
    r = m.num(ival(m, xs[0]))
    for y in xs[1:]:
        y = m.num(ival(m, y))
        c = lt(r, y) if f["sn"] == "max" else lt(y, r)
        c = simp_cond(c, m.ctx, True)
        if not isinstance(c, bool) and is_int_poly(r) and is_int_poly(y): c = m.decide(c)
        r = ite(c, y, r)
    return r
@free("clamp")
def f_clamp(m, f, args, loc):
    x, lo, hi = [m.num(ival(m, a)) for a in args[:3]]
    return ite(lt(x, lo), lo, ite(lt(hi, x), hi, x))
@free("max_element", "min_element")
def f_mxel(m, f, args, loc):
    a, b = ival(m, args[0]), ival(m, args[1]); n = idist(m, a, b)
    if len(args) > 2: raise Unsupported("max_element with comparator")
    if not n.is_const():
        if isinstance(a, Obj):
            m.oblige("range is valid", le(0, n), loc)
            bb = fresh("c"); sn = m.ctx.snapshot(); m.ctx.index(bb, 0, n)
            try: v = m.num(ival(m, ideref(m, iadd(m, a, bb), loc)))
            finally: m.ctx.restore(sn)
            pos = mkext("arg" + f["sn"][:3], [(atom_of(bb), n)], True, v)
            m.ctx.assume(le(0, pos)); m.ctx.assume(lt(pos, n)); m.ctx.assume(eq(subst(v, {atom_of(bb).id: pos}), mkext(f["sn"][:3], [(atom_of(bb), n)], True, v)))
            return iadd(m, a, pos)
        if not isinstance(a, Ptr): raise Unsupported("max_element")
        m.to_arr(a.seq); check_range(m, a, n, loc, "max_element")
        bb = fresh("c"); s = m.ctx.snapshot(); m.ctx.index(bb, 0, n)
        try: v = m.read_arr(a.seq.arr.v, a.off + bb)
        finally: m.ctx.restore(s)
        M = mkext(f["sn"][:3], [(atom_of(bb), n)], True, v)
        # position: the first index in range whose value is the extremum
        pos = mkext("arg" + f["sn"][:3], [(atom_of(bb), n)], True, v)
        m.ctx.assume(eq(m.read_arr(a.seq.arr.v, a.off + pos), M))
        m.ctx.assume(le(0, pos)); m.ctx.assume(lt(pos, n))
        o = ArgPtr(a.seq, a.off + pos); o.snap = a.seq.arr.v; o.val = M; return o
    k = int(n.const())
    if k == 0: return b
    best = a; bv = m.num(ival(m, ideref(m, a, loc)))
    for i in range(1, k):
        x = iadd(m, a, i); v = m.num(ival(m, ideref(m, x, loc)))
        if m.decide(lt(bv, v) if f["sn"][:3] == "max" else lt(v, bv)): best, bv = x, v
    return best
@free("swap", "iter_swap")
def f_swap(m, f, args, loc):
    a, b = args
    if f["sn"] == "iter_swap": a, b = ideref(m, a, loc), ideref(m, b, loc)
    va, vb = ival(m, a), ival(m, b)
    if isinstance(va, SC): m.store(a, vb); m.store(b, va); return None
    ca, cb = m.copy(va), m.copy(vb)
    m.assign_storage(a, cb); m.assign_storage(b, ca); return None
@free("for_each")
def f_for_each(m, f, args, loc):
    i = 1 if len(args) == 4 else 0     # execution policy
    fv = ival(m, args[i + 2])
    iterate(m, ival(m, args[i]), ival(m, args[i + 1]), lambda x: m.call_value(fv, [x], loc), loc)
    return fv
@free("for_each_n")
def f_for_each_n(m, f, args, loc):
    a = ival(m, args[0]); n = m.num(ival(m, args[1])); fv = ival(m, args[2])
    m.index_loop(ZERO, n, lambda i: (m.call_value(fv, [ideref(m, iadd(m, a, i), loc)], loc), None)[1], loc)
    return iadd(m, a, n)
@free("generate", "generate_n")
def f_generate(m, f, args, loc):
    a = ival(m, args[0])
    n = idist(m, a, args[1]) if f["sn"] == "generate" else m.num(ival(m, args[1]))
    fv = ival(m, args[2])
    def body(i):
        r = ival(m, m.call_value(fv, [], loc)); m.assign_storage(ideref(m, iadd(m, a, i), loc), Cell(m, r) if isinstance(r, SC) else r)
    m.index_loop(ZERO, n, body, loc)
    return None
@free("transform")
def f_transform(m, f, args, loc):
    a, b = ival(m, args[0]), ival(m, args[1]); n = idist(m, a, b)
    if len(args) == 4: srcs = [a]; d = ival(m, args[2]); fv = ival(m, args[3])
    else: srcs = [a, ival(m, args[2])]; d = ival(m, args[3]); fv = ival(m, args[4])
    def body(i):
        r = m.call_value(fv, [ideref(m, iadd(m, s, i), loc) for s in srcs], loc); r = ival(m, r)
        m.assign_storage(ideref(m, iadd(m, d, i), loc), Cell(m, r) if isinstance(r, SC) else r)
    m.index_loop(ZERO, n, body, loc)
    return iadd(m, d, n)
@free("inner_product", "transform_reduce")
def f_inner(m, f, args, loc):
    a, b, c = ival(m, args[0]), ival(m, args[1]), ival(m, args[2])
    acc = Cell(m, ival(m, args[3])); n = idist(m, a, b)
    op1 = ival(m, args[4]) if len(args) > 4 else None; op2 = ival(m, args[5]) if len(args) > 5 else None
    def body(i):
        x, y = ideref(m, iadd(m, a, i), loc), ideref(m, iadd(m, c, i), loc)
        p = m.num(ival(m, x)) * m.num(ival(m, y)) if op2 is None else ival(m, m.call_value(op2, [x, y], loc))
        r = m.num(acc.v) + m.num(p) if op1 is None else ival(m, m.call_value(op1, [acc, Cell(m, p)], loc))
        m.write(acc, r)
    m.index_loop(ZERO, n, body, loc)
    return acc.v
@free("iota")
def f_iota(m, f, args, loc):
    a = ival(m, args[0]); n = idist(m, a, args[1]); v = m.num(ival(m, args[2]))
    m.index_loop(ZERO, n, lambda i: m.assign_storage(ideref(m, iadd(m, a, i), loc), Cell(m, v + i)), loc)
@free("reverse")
def f_reverse(m, f, args, loc):
    a, b = ival(m, args[0]), ival(m, args[1]); n = idist(m, a, b)
    if n.is_const():
        vals = [ival(m, ideref(m, iadd(m, a, i), loc)) for i in range(int(n.const()))]
        for i, v in enumerate(reversed(vals)): m.assign_storage(ideref(m, iadd(m, a, i), loc), Cell(m, v) if isinstance(v, SC) else v)
        return None
    m.to_arr(a.seq); bb = fresh("c"); old = a.seq.arr.v
    s = m.ctx.snapshot(); m.ctx.index(bb, 0, n)
    try: v = m.read_arr(old, a.off + n - 1 - bb)
    finally: m.ctx.restore(s)
    m.write(a.seq.arr, Lay(old, "set", [(atom_of(bb), n)], True, a.off + bb, v))
@free("equal")
def f_equal(m, f, args, loc):
    a, b, c = ival(m, args[0]), ival(m, args[1]), ival(m, args[2]); n = idist(m, a, b)
    if len(args) >= 4 and isinstance(ival(m, args[3]), (Ptr, RPtr)):
        n2 = idist(m, c, args[3])
        if not m.decide(eq(n, n2)): return False
    if not n.is_const(): raise Unsupported("std::equal on symbolic range")
    r = True
    for i in range(int(n.const())):
        r = conj(r, eq(m.num(ival(m, ideref(m, iadd(m, a, i), loc))), m.num(ival(m, ideref(m, iadd(m, c, i), loc)))))
    return r
@free("find")
def f_find(m, f, args, loc):
    a, b = ival(m, args[0]), ival(m, args[1]); n = idist(m, a, b)
    if not n.is_const(): raise Unsupported("find")
    for i in range(int(n.const())):
        x = iadd(m, a, i)
        if m.decide(eq(m.num(ival(m, ideref(m, x, loc))), m.num(ival(m, args[2])))): return x
    return b
@free("all_of", "any_of", "none_of", "find_if", "count_if", "find_if_not")
def f_allof(m, f, args, loc):
    a, b = ival(m, args[0]), ival(m, args[1]); n = idist(m, a, b); fv = ival(m, args[2])
    if not n.is_const(): raise Unsupported(f["sn"])
    sn = f["sn"]; cnt = 0
    for i in range(int(n.const())):
        x = iadd(m, a, i)
        c = m.decide(m.tobool(ival(m, m.call_value(fv, [ideref(m, x, loc)], loc))))
        if sn == "all_of" and not c: return False
        if sn == "any_of" and c: return True
        if sn == "none_of" and c: return False
        if sn == "find_if" and c: return x
        if sn == "find_if_not" and not c: return x
        cnt += bool(c)
    return {"all_of": True, "any_of": False, "none_of": True}.get(sn, P(cnt) if sn == "count_if" else b)
@free("make_tuple", "make_pair")
def f_mktuple(m, f, args, loc):
    return mktuple(m, [Cell(m, a) if isinstance(a, SC) else (Cell(m, m.load(a)) if isinstance(a, (Cell, ElemLV)) else m.copy(a)) for a in args])
@free("tie", "forward_as_tuple")
def f_tie(m, f, args, loc): return mktuple(m, [Cell(m, a) if isinstance(a, SC) else a for a in args])
@free("tuple_cat")
def f_tcat(m, f, args, loc):
    xs = []
    for a in args: xs.extend(m.copy(x) if not isinstance(x, SC) else x for x in ival(m, a).x)
    return mktuple(m, xs)
@free("get")
def f_get(m, f, args, loc):
    o = ival(m, args[0]); ta = f["ta"][0]
    if "i" in ta:
        i = int(ta["i"])
        return m.elem_lv(Ptr(o, i)) if isinstance(o, Seq) else o.x[i]
    raise Unsupported("get by type")
@free("apply")
def f_apply(m, f, args, loc): return m.call_value(ival(m, args[0]), list(ival(m, args[1]).x), loc)
@free("invoke")
def f_invoke(m, f, args, loc): return m.call_value(ival(m, args[0]), args[1:], loc)
@free("make_shared", "make_unique")
def f_make_shared(m, f, args, loc):
    t = f["ta"][0]["t"]
    return Addr(make_object(m, t, args))
def make_object(m, t, args):
    k = m.tk(t)
    if k in ("int", "float", "bool", "ptr"): return Cell(m, ival(m, args[0]) if args else (ZERO if k != "bool" else False))
    r = m.recof(t)
    if len(args) == 1:
        v = args[0]
        if isinstance(v, (Cell, ElemLV)): v = m.load(v)
        if isinstance(v, Obj) and v.rec == m.ty(m.strip(t))["d"]: return m.copy(v)
        if r["ext"] and isinstance(v, (Std, Seq)) and not (r["n"] in ("std::any",)): return m.copy(v)
    if r["ext"]: 
        v = construct(m, r, t, args, {"k": "ctor"})
        return Cell(m, v) if isinstance(v, SC) else v
    rec = m.ty(m.strip(t))["d"]
    cands = [c["f"] for c in r.get("ctors", []) if not c["cc"] and not c["mc"] and arity_ok(m, m.F[str(c["f"])], args)]
    if not cands:
        if not args:
            o = Obj(m, rec); m.init_fields(o, r); return o
        # aggregate
        if not r.get("ctors"):
            o = Obj(m, rec)
            for fd, a in zip(r["fields"], args): o.f[fd["n"]] = convert(m, fd["t"], a)
            for fd in r["fields"][len(args):]: o.f[fd["n"]] = m.bind_init(fd["t"], fd["init"]) if fd["init"] is not None else m.default_storage(fd["t"])
            return o
        raise Unsupported("constructor of %s" % r["n"])
    c = cands[0] if len(cands) == 1 else pick_ctor(m, cands, args)
    return m.construct(c, args, None, rec)
def arity_ok(m, f, args):
    return len(f["ps"]) == len(args) or (len(f["ps"]) > len(args) and all(p.get("dv") is not None for p in f["ps"][len(args):]))
def pick_ctor(m, cands, args):
    best = None
    for c in cands:
        f = m.F[str(c)]; s = 0
        for p, a in zip(f["ps"], args):
            v = ival(m, a) if isinstance(a, (Cell, ElemLV)) else a
            t = m.ty(m.strip(p["t"])); k = t["k"]
            if isinstance(v, Poly): s += (2 if k in ("int", "float") and (k == "int") == is_int_poly(v) else 1 if k in ("int", "float") else -9)
            elif isinstance(v, Obj): s += 3 if k == "rec" and t["d"] == v.rec else -9
            elif isinstance(v, Seq):
                rn = m.R[str(t["d"])]["n"] if k == "rec" else ""
                s += 2 if rn in SEQREC else -9
                if rn == "std::vector": s += 0
            elif isinstance(v, Std): s += 1 if k == "rec" else -9
        s -= 0.1 * abs(len(f["ps"]) - len(args))
        if best is None or s > best[0]: best = (s, c)
    return best[1]
@free("any_cast")
def f_any_cast(m, f, args, loc):
    a = ival(m, args[0]); ptr = False
    if isinstance(a, Addr): a = a.lv; ptr = True
    x = a.c["v"].v
    if x is None: 
        if ptr: return NULL
        raise PathAbort("bad any_cast")
    return Addr(x) if ptr else x
@free("make_any")
def f_make_any(m, f, args, loc): return Std(m, "any", v=make_object(m, f["ta"][0]["t"], args))
@free("format", "to_string", "print", "println", "vformat", "make_format_args")
def f_format(m, f, args, loc): return Std(m, "str", v=None)
@free("isnan", "isinf", "__builtin_isnan", "__builtin_isinf_sign", "__isnan", "__isinf")
def f_isnan(m, f, args, loc): m.assumed.add("no NaN or infinity occurs"); return False
@free("isfinite")
def f_isfinite(m, f, args, loc): m.assumed.add("no NaN or infinity occurs"); return True
@free("operator==", "operator!=", "operator<", "operator>", "operator<=", "operator>=", "operator<=>", "operator-", "operator+")
def f_cmp(m, f, args, loc):
    sn = f["sn"]; a, b = ival(m, args[0]), (ival(m, args[1]) if len(args) > 1 else None)
    if sn != "operator-" and sn != "operator+" and f["ps"] and isinstance(a, (Poly, bool)) and "ordering" in m.ty(m.strip(f["ps"][0]["t"]))["s"]:      # the result of <=> against 0
        return {"operator==": eq, "operator!=": ne, "operator<": lt, "operator>": gt, "operator<=": le, "operator>=": ge}[sn](m.num(a), b if isinstance(b, Poly) else ZERO)
    if b is None: return NotImplemented
    if isinstance(a, Std) and a.kind == "str" or isinstance(b, Std) and b.kind == "str":
        x, y = strof(a), strof(b)
        if sn == "operator+": return Std(m, "str", v=x + y if x is not None and y is not None else None)
        if x is None or y is None: raise Unsupported("comparison of unknown strings")
        if sn == "operator==": return x == y
        if sn == "operator!=": return x != y
        return NotImplemented
    if isinstance(a, Ptr) and isinstance(b, Ptr):
        if sn == "operator-": return a.off - b.off
        if sn in ("operator==", "operator!="):
            r = eq(a.off, b.off) if a.seq is b.seq else False
            return r if sn == "operator==" else neg(r)
        if sn == "operator<": return lt(a.off, b.off)
        if sn == "operator>": return lt(b.off, a.off)
        if sn == "operator<=": return le(a.off, b.off)
        if sn == "operator>=": return le(b.off, a.off)
    if isinstance(a, Poly) and isinstance(b, (Ptr, RPtr)) and sn == "operator+": return iadd(m, b, a)
    if isinstance(a, (RPtr, MapIt, Addr, Null, FnVal)) or isinstance(b, (Addr, Null)):
        if sn == "operator-": return idist(m, b, a)
        r = (a == b) if not isinstance(a, RPtr) else ieq(m, a, b)
        if isinstance(a, Null) or isinstance(b, Null): r = a is b
        if sn == "operator==": return r
        if sn == "operator!=": return neg(r)
    if isinstance(a, Std) and a.kind == "function" and b is NULL:
        r = a.c["f"].v is None
        return r if sn == "operator==" else not r
    if isinstance(a, Seq) and isinstance(b, Seq) and sn in ("operator==", "operator!="):
        r = seq_eq(m, a, b)
        return r if sn == "operator==" else neg(r)
    if isinstance(a, Std) and a.kind == "tuple" and sn in ("operator==", "operator!="):
        r = True
        for x, y in zip(a.x, b.x): r = conj(r, eq(m.num(ival(m, x)), m.num(ival(m, y))))
        return r if sn == "operator==" else neg(r)
    if isinstance(a, Poly) and isinstance(b, Poly):
        if sn == "operator==": return eq(a, b)
        if sn == "operator!=": return ne(a, b)
    return NotImplemented
def seq_eq(m, a, b):
    if a.items.v is not None and b.items.v is not None:
        if len(a.items.v) != len(b.items.v): return False
        r = True
        for x, y in zip(a.items.v, b.items.v):
            x, y = ival(m, x), ival(m, y)
            if isinstance(x, Poly): r = conj(r, eq(x, m.num(y)))
            elif isinstance(x, Seq): r = conj(r, seq_eq(m, x, y))
            else: raise Unsupported("sequence comparison")
        return r
    raise Unsupported("comparison of symbolic-size sequences")
@free("endl", "flush", "setw", "setprecision", "fixed", "getline")
def f_io(m, f, args, loc): return args[0] if args else None
@free("clock", "time", "now", "time_since_epoch", "count")
def f_clock(m, f, args, loc): return fresh("clock")
@free("addressof_")
def _a(m, f, args, loc): return NotImplemented
@free("plus", "multiplies")
def _p(m, f, args, loc): return NotImplemented
