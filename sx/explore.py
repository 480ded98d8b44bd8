"""Path exploration of one scenario: symbolic runs, counterexample models, witnesses."""
import json
import time
import traceback

import z3
from . import core, instr, senv, mctypes, common
from .core import (Path, Stats, PathInfeasible, Unsupported, Bound, FoundViolation, MemoryFault, SymInt, SymBool, SymBytes,
                   SymByteArray, SymView, SymStr, segs_of)

VERIF = __file__.rsplit("/", 2)[0]
REPO = "/repo"


# ------------------------------------------------------------------ models -> concrete values
def array_value(m, arr):
    """-> (dict, default) or None"""
    v = m.eval(arr, model_completion=True)
    d = {}
    while z3.is_app(v) and v.decl().kind() == z3.Z3_OP_STORE:
        i, x = v.arg(1), v.arg(2)
        if not (z3.is_bv_value(i) and z3.is_bv_value(x)):
            return None
        d.setdefault(i.as_long(), x.as_long())
        v = v.arg(0)
    if z3.is_app(v) and v.decl().kind() == z3.Z3_OP_CONST_ARRAY and z3.is_bv_value(v.arg(0)):
        return d, v.arg(0).as_long()
    return None


def ev_int(m, x):
    if type(x) is SymInt:
        return x.eval(m)
    return int(x)


def ev_bytes(m, x):
    out = bytearray()
    for s in segs_of(x):
        if type(s) is tuple:
            for e in s:
                out.append(e if type(e) is int else m.eval(e, model_completion=True).as_long())
        else:
            n, off = ev_int(m, s.n), ev_int(m, s.off)
            if n > 2_000_000:
                raise Unsupported("model with a %d byte message" % n)
            av = array_value(m, s.arr)
            if av is None:
                for i in range(n):
                    out.append(m.eval(z3.Select(s.arr, z3.BitVecVal(off + i, 32)), model_completion=True).as_long())
            else:
                d, dflt = av
                b = bytearray([dflt]) * n
                for k, v in d.items():
                    if off <= k < off + n:
                        b[k - off] = v
                out.extend(b)
    return bytes(out)


def ev(m, v):
    """canonical JSON value of an observed value under a model"""
    t = type(v)
    if v is None or t in (str, bool):
        return v
    if t is SymBool:
        return z3.is_true(m.eval(v.t, model_completion=True))
    if t in (int, SymInt):
        return ev_int(m, v)
    if t in (bytes, bytearray, SymBytes, SymByteArray, SymView):
        return {"hex": ev_bytes(m, v).hex()}
    if t is SymStr:
        return "".join(chr(c if type(c) is int else m.eval(c, model_completion=True).as_long()) for c in v.cs)
    if isinstance(v, (list, tuple)):
        return [ev(m, x) for x in v]
    if isinstance(v, BaseException):
        return type(v).__name__
    if isinstance(v, type):
        return v.__name__
    if t is float:
        return v
    return "<%s>" % t.__name__


def model_inputs(path, m):
    out = {}
    for nm, kind, v in path.inputs:
        if kind == "bytes":
            out[nm] = {"hex": ev_bytes(m, v).hex()}
        elif kind == "int":
            out[nm] = ev_int(m, v)
        elif kind == "bool":
            out[nm] = z3.is_true(m.eval(v.t, model_completion=True)) if type(v) is SymBool else bool(v)
    return out


class Result:
    def __init__(self):
        self.stats = Stats()
        self.violations = []     # dicts: label, detail, inputs, path
        self.witnesses = []      # dicts: inputs, observed
        self.probes = []         # inputs of paths that ended in Unsupported / Bound (run concretely)
        self.complete = True
        self.notes = []
        self.wall = 0.0


def run_path(prefix, stats, cfg, scen_mod, scen_fn, params):
    p = Path(prefix, stats, cfg)
    core.set_ctx(p)
    mctypes._array_cache.clear()
    mctypes.CDLL.factory = None
    holder = [None]
    space = instr.Space(REPO, senv.default_models(holder), extra_roots={"scen": VERIF + "/scen"})
    for name, path in cfg.get("stdlib_instr", {}).items():
        space.stdlib_instr[name] = path
        space.models.pop(name, None)
    env = senv.SymEnv(p, space, params)
    holder[0] = env
    p.env = env
    for name in cfg.get("stdlib_instr", {}):
        space.load(name)
    mod = space.load("scen." + scen_mod)
    fn = getattr(mod, scen_fn)
    p.end = None
    try:
        fn(env, **params.get("args", {}))
        p.end = "done"
    except PathInfeasible:
        p.end = "infeasible"
    except FoundViolation as e:
        p.end, p.why, p.detail = "violation", e.label, str(e.detail)
    except MemoryFault as e:
        p.end, p.why, p.detail = "violation", "memory-fault", str(e)
    except (Unsupported, Bound) as e:
        p.end, p.why, p.detail = "incomplete", type(e).__name__, str(e)
    except common.Blocked as e:
        p.end, p.why, p.detail = "violation", "blocked-forever", str(e)
    except RecursionError as e:
        p.end, p.why, p.detail = "incomplete", "RecursionError", ""
    except z3.Z3Exception as e:
        p.end, p.why, p.detail = "incomplete", "Z3Exception", str(e) + traceback.format_exc()[-600:]
    except Exception as e:
        tb = traceback.format_exc()
        if common.api_gap(e):
            p.end, p.why, p.detail = "incomplete", "api", tb[-500:]
            return p
        p.end, p.why, p.detail = "violation", "unexpected-exception:%s" % type(e).__name__, tb[-1500:]
    return p


def explore(scen_mod, scen_fn, params, cfg, known=()):
    """cfg: max_paths, budget_s, max_witness, timeout_ms..."""
    res = Result()
    st = res.stats
    t0 = time.time()
    stack = [[]]
    budget = cfg.get("budget_s", 120)
    maxp = cfg.get("max_paths", 20000)
    max_w = cfg.get("max_witness", 40)
    max_v = cfg.get("max_violations", 3)
    wit_seen = 0
    while stack:
        if time.time() - t0 > budget or st.paths >= maxp:
            res.complete = False
            res.notes.append("exploration stopped with %d open branches (paths=%d)" % (len(stack), st.paths))
            break
        prefix = stack.pop()
        p = run_path(prefix, st, cfg, scen_mod, scen_fn, params)
        stack.extend(p.alts)
        if p.end == "infeasible":
            continue
        st.paths += 1
        try:
            if p.end == "violation":
                p.ensure_model()
                if not core.refine_ropeeqs(p):
                    raise PathInfeasible()
                m = p.ensure_model()
                res.violations.append({"label": p.why, "detail": p.detail, "inputs": model_inputs(p, m),
                                       "flags": sorted(p.flags)})
                if len(res.violations) >= max_v:
                    res.notes.append("stopped after %d violations" % max_v)
                    break
            elif p.end == "incomplete":
                res.complete = False
                res.notes.append("%s: %s" % (p.why, p.detail[:300]))
                if len(res.probes) < 60:
                    m = p.ensure_model()
                    res.probes.append(model_inputs(p, m))
            else:
                if "underapprox" in p.flags:
                    res.complete = False
                wit_seen += 1
                if len(res.witnesses) < max_w or (wit_seen % 16 == 0 and len(res.witnesses) < 4 * max_w):
                    m = p.ensure_model()
                    res.witnesses.append({"inputs": model_inputs(p, m),
                                          "observed": [[n, ev(m, v)] for n, v in p.observed]})
        except PathInfeasible:
            st.paths -= 1
            continue
        except Unsupported as e:
            res.notes.append("model: %s" % e)
            if p.end == "violation":
                res.complete = False
    res.wall = time.time() - t0
    return res
