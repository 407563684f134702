"""Symbolic verification of one harness function."""
import time, traceback, sys
import terms as T
from terms import *
from interp import *
import intrin
from spec import SPECS, SymS, Missing, model_inputs

class Result: pass
def verify(prog, harness, timeout=120, opts=None):
    opts = opts or {}
    sys.setrecursionlimit(60000)
    T.DOMAIN.clear()
    for k in STATS: STATS[k] = 0
    t0 = time.time()
    res = {"harness": harness, "obligs": [], "paths": 0, "unsupported": None, "visited": [], "assumed": [], "contracts": [], "reached": False, "dims": []}
    m = Machine(prog); m.deadline = t0 + timeout; m.fixed_dims = dict(opts.get("fix", {}))
    m.ctx.deadline = m.deadline
    intrin.setup(m, opts.get("contracts", True))
    for k in opts.get("nocontract", ()): m.intr.pop(k, None)
    if opts.get("setup"): opts["setup"](m)
    fid = prog["roots"].get(harness)
    if fid is None:
        res["unsupported"] = "harness not found"; return res
    sp = SPECS.get(harness)
    def sink(what, status, how, mod): res["obligs"].append({"kind": what, "loc": harness, "status": status, "how": how, "model": mod})
    def run():
        n0 = len(m.obligs)
        ab = None
        try: m.invoke(fid, [])
        except PathAbort as e: ab = str(e)
        fails = False
        for o in m.obligs[n0:]:
            res["obligs"].append({"kind": o.kind, "loc": o.loc, "status": o.status, "how": o.how if o.status == "proved" else o.detail, "model": o.model})
        if ab is not None:
            st, mod = m.judge(False)
            res["obligs"].append({"kind": "no abort under the precondition", "loc": ab, "status": st, "how": "path: " + "; ".join(show_cond(c)[:120] for c in m.ctx.facts[-6:]), "model": mod})
            return
        res["reached"] = True
        st, jn = m.ghost.c["started"].v, m.ghost.c["joined"].v
        if P(st).d or P(jn).d:
            pr = prove_zero(P(st) - P(jn), m.ctx)
            if pr: sink("every started thread is joined before the function returns", "proved", "normal form", None)
            else:
                stt, r = m.judge(eq(st, jn)); sink("every started thread is joined before the function returns", stt, "started %s, joined %s" % (show(P(st)), show(P(jn))), r)
        if sp is not None:
            sp(SymS(m, sink))
    try:
        paths = m.explore(run)
        res["paths"] = len(paths)
        if not res["obligs"]: res["unsupported"] = "no obligation was generated"
    except Unsupported as e: res["unsupported"] = str(e) + (" in " + " < ".join(getattr(e, "trace", [])[:8]))
    except RecursionError: res["unsupported"] = "recursion"
    except Timeout: res["unsupported"] = "time budget"
    except Missing as e: res["unsupported"] = "missing " + str(e)
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        res["unsupported"] = "internal: %s: %s @ %s" % (type(e).__name__, e, " < ".join("%s:%d" % (f.name, f.lineno) for f in tb[-4:][::-1]))
        if opts.get("debug"): traceback.print_exc()
    res["visited"] = sorted(set("%s @ %s" % v for v in m.visited if "/repo/" in str(v[1])))
    res["assumed"] = sorted(m.assumed); res["contracts"] = sorted(m.contract_used)
    res["dims"] = list(m.dims)
    res["wall"] = time.time() - t0; res["stats"] = dict(STATS)
    res["domain"] = dict(T.DOMAIN)
    return res
