"""Compiles the harness against the real library and replays concrete cases."""
import os, signal, subprocess, sys, tempfile
M64 = (1 << 64) - 1
def mix(x):
    x = (x + 0x9E3779B97F4A7C15) & M64; x = ((x ^ (x >> 30)) * 0xBF58476D1CE4E5B9) & M64
    x = ((x ^ (x >> 27)) * 0x94D049BB133111EB) & M64; return x ^ (x >> 31)
_h = {}
def hs(s):
    h = _h.get(s)
    if h is None:
        h = 1469598103934665603
        for c in s.encode(): h = ((h ^ c) * 1099511628211) & M64
        _h[s] = h
    return h
def gen_value(name, i, seed, dom):
    h = mix(hs(name) ^ mix((seed * 1000003 + i) & M64)); q = h % 257 - 128
    if dom == 0: return q / 64.0
    if dom == 1: return (q + 129) / 64.0
    if dom == 2: return q / 130.0
    if dom == 3: return q / 4.0
    if dom == 7: return q * 8.0
    if dom == 6: return (q + 1 if q >= 0 else q) / 64.0
    if dom == 8: return (q + 128) / 257.0
    if dom == 5: return (q + 129) / 258.0
    if dom == 4: return 1.0 + (q + 129) / 64.0
    return q / 64.0
class Case:
    def __init__(self, harness, seed=1, dims=None, reals=None, sets=None, maxdim=5):
        self.harness = harness; self.seed = seed; self.dims = dims or {}; self.reals = reals or {}; self.sets = sets or []; self.maxdim = maxdim
    def lines(self):
        out = ["seed %d" % self.seed, "maxdim %d" % self.maxdim]
        out += ["dim %s %d" % kv for kv in self.dims.items()] + ["real %s %.17g" % kv for kv in self.reals.items()]
        out += ["set %s %d %.17g" % s for s in self.sets] + ["run %s" % self.harness]
        return out
class Native:
    def __init__(self, exe): self.exe = exe
    def run(self, cases, timeout=120):
        """list of records, one per case"""
        env = dict(os.environ); env["ASAN_OPTIONS"] = "detect_leaks=0:allocator_may_return_null=1"
        inp = "\n".join("\n".join(c.lines()) for c in cases) + "\n"
        # the replays run in a session of their own, so that a hanging one is ended together with its children
        with tempfile.TemporaryFile() as fi, tempfile.TemporaryFile() as fo:
            fi.write(inp.encode()); fi.seek(0)
            p = subprocess.Popen([self.exe], stdin=fi, stdout=fo, stderr=subprocess.DEVNULL, env=env, start_new_session=True)
            try: p.wait(timeout)
            except subprocess.TimeoutExpired: pass
            finally:
                try: os.killpg(p.pid, signal.SIGKILL)
                except ProcessLookupError: pass
                p.wait()
            fo.seek(0); txt = fo.read()
        recs = []; cur = None
        for line in txt.decode("utf8", "replace").split("\n"):
            w = line.split(" ")
            if w[0] == "begin": cur = {"dims": {}, "reals": {}, "outs": {}, "vals": {}, "checks": [], "status": None, "done": False, "skip": False}; last = None
            elif cur is None: continue
            elif w[0] == "dim": cur["dims"][w[1]] = int(w[2])
            elif w[0] == "real": cur["reals"][w[1]] = float(w[2])
            elif w[0] == "out":
                try: cur["outs"][w[1]] = ([], [float(x) for x in w[4:]]); last = w[1]
                except ValueError: pass
            elif w[0] == "shape" and last: cur["outs"][last][0].append(int(w[1]))
            elif w[0] == "val":
                try: cur["vals"][w[1]] = float(w[2])
                except ValueError: pass
            elif w[0] == "check": cur["checks"].append((w[1], w[2] == "1"))
            elif w[0] == "skip": cur["skip"] = True
            elif w[0] == "done": cur["done"] = True
            elif w[0] == "end": cur["status"] = int(w[1]); recs.append(cur); cur = None
        return recs
