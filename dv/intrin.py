"""Symbolic meaning of the harness intrinsics and the contracts of functions verified separately."""
import terms as T
from terms import *
from interp import *
import stl

def cstr(v):
    v = stl.ival(None, v) if not isinstance(v, (Cell,)) else v.v
    if isinstance(v, Std) and v.kind == "str": return v.c["v"].v
    if isinstance(v, Ptr) : raise Unsupported("name must be a literal")
    raise Unsupported("name")
DOM = {}
def i_dim(m, f, a, this, loc):
    n = cstr(a[0]); lo = m.num(m.load(a[1])) if len(a) > 1 else ONE
    if n not in m.dims:
        fx = m.fixed_dims.get(n)
        if fx is not None: m.dims[n] = P(fx)
        else:
            p = sym(n); m.dims[n] = p
    p = m.dims[n]
    if not p.is_const() and atom_of(p).id not in m.ctx.rng: m.ctx.index(p, lo, None)
    return p
def i_real(m, f, a, this, loc):
    return sym(cstr(a[0]), "real")
def i_pos(m, f, a, this, loc):
    x = sym(cstr(a[0]), "real"); m.ctx.assume(lt(0, x)); return x
def i_assume(m, f, a, this, loc):
    c = m.tobool(m.load(a[0]))
    if c is False: raise Infeasible()
    if upper_bound(m, c): return
    m.ctx.assume(c)
    if c is not True and not m.ctx.feasible(): raise Infeasible()
def upper_bound(m, c):
    """i < n for a dimension i without upper bound, n in terms of earlier dimensions: the range of i (the path condition is the same)"""
    if m.loopdepth or c is True or c[0] != "<" or not is_int_poly(c[1]): return False
    rng, order = m.ctx.rng, m.ctx.order
    for mm, v in c[1].d.items():
        if v != 1 or len(mm) != 1 or mm[0][1] != 1: continue
        i = mm[0][0]
        if i not in rng or rng[i][1] is not None: continue
        n = P(T._atoms[i]) - c[1]
        if any(j not in order or order.index(j) > order.index(i) for j in n.fv()) or any(a.kind != "sym" for a in atoms_in(n)): continue
        if not m.ctx.prove(lt(rng[i][0], n)): continue
        rng[i] = (rng[i][0], n); m.ctx.version += 1
        return True
    return False
def i_fill(m, f, a, this, loc):
    p = m.load(a[0]); n = m.num(m.load(a[1])); name = cstr(a[2]); dom = int(m.num(m.load(a[3])).const())
    if dom: T.DOMAIN[name] = dom
    if not isinstance(p, Ptr): raise Unsupported("vf_fill")
    m.to_arr(p.seq)
    if not (p.off == ZERO and n == p.seq.size.v): raise Unsupported("vf_fill of part of a buffer")
    m.write(p.seq.arr, Base(name, "real"))
def i_out(m, f, a, this, loc):
    name = cstr(a[0]); p = m.load(a[1]); n = m.num(m.load(a[2]))
    if p is NULL: arr = (); size = ZERO; off = ZERO
    else:
        seq = p.seq; size = n; off = p.off
        stl.check_range(m, p, n, loc, "result %s" % name)
        arr = seq.arr.v if seq.items.v is None else tuple(m.load(x) for x in seq.items.v)
        if isinstance(arr, tuple) and off != ZERO: arr = arr[int(off.const()):]
    m.write(m.ghost.c["outs"], m.ghost.c["outs"].v + ((name, arr, size, off, ()),))
def i_shape(m, f, a, this, loc):
    o = m.ghost.c["outs"].v; l = o[-1]
    m.write(m.ghost.c["outs"], o[:-1] + (l[:4] + (l[4] + (m.num(m.load(a[0])),),),))
def i_val(m, f, a, this, loc):
    m.write(m.ghost.c["vals"], m.ghost.c["vals"].v + ((cstr(a[0]), m.num(m.load(a[1]))),))
def i_check(m, f, a, this, loc):
    c = m.tobool(m.load(a[1]))
    if c is False: m.fail("check " + cstr(a[0]), loc)
    elif c is True:
        if m.rec: m.obligs.append(Oblig("check " + cstr(a[0]), loc, "proved", "normal form"))
    else: m.oblige("check " + cstr(a[0]), c, loc)
def c_bar(m, f, a, this, loc):
    m.contract_used.add("tq::progress_bar::restart/update: print to the terminal, change nothing but the bar (not proved)")
def setup(m, contracts=True):
    m.opaque_records = {"tq::progress_bar"}
    m.dims = {}; m.fixed_dims = getattr(m, "fixed_dims", {})
    m.ghost = Std(m, "ghost", outs=(), vals=(), draw=ZERO, uid=ONE, started=ZERO, joined=ZERO); m.threadcaps = []
    m.intr.update({"vf_dim": i_dim, "vf_real": i_real, "vf_pos": i_pos, "vf_assume": i_assume, "vf_fill": i_fill, "vf_fillf": i_fill, "vf_out": i_out, "vf_outf": i_out,
                   "vf_outu": i_out, "tq::progress_bar::restart": c_bar, "tq::progress_bar::update": c_bar, "vf_shape": i_shape, "vf_val": i_val, "vf_valu": i_val, "vf_check": i_check})
    if contracts:
        m.intr.update({"ceras::parallel": c_parallel, "ceras::has_nan": c_nan, "ceras::has_inf": c_nan, "ceras::is_valid": c_valid,
                       "ceras::(anonymous namespace)::memory_cache::allocate": c_alloc, "ceras::(anonymous namespace)::memory_cache::deallocate": c_dealloc,
                       "ceras::(anonymous namespace)::get_memory_cache": c_cache, "ceras::generate_uid": c_uid})
# contracts of functions verified (or assumed) separately
def c_parallel(m, f, a, this, loc):
    """parallel(func, a, b): func is applied exactly once to every index of [a,b)  (property on parallel loops)"""
    m.contract_used.add("ceras::parallel")
    fn_ = a[0]
    if isinstance(fn_, (Cell, ElemLV)): fn_ = m.load(fn_)
    if len(f["ps"]) == 2 : lo, hi = ZERO, m.num(m.load(a[1]))
    else: lo, hi = m.num(m.load(a[1])), m.num(m.load(a[2]))
    def body(i): m.call_value(fn_, [Cell(m, i)], loc)
    m.index_loop(lo, hi, body, loc, par=True)
def c_nan(m, f, a, this, loc): m.assumed.add("no NaN or infinity occurs"); return False
def c_valid(m, f, a, this, loc): m.assumed.add("no NaN or infinity occurs"); return True
def c_alloc(m, f, a, this, loc):
    m.contract_used.add("memory_cache::allocate: returns a block of the requested size that no live object uses, contents arbitrary")
    n = m.num(m.load(a[0]))
    s = m.new_arr_seq("int", n); s.et = None
    return Ptr(s, 0)
def c_dealloc(m, f, a, this, loc): return None
def c_cache(m, f, a, this, loc): return Std(m, "opaque")
def c_uid(m, f, a, this, loc):
    c = m.ghost.c["uid"]; v = c.v; m.write(c, v + 1); return v
