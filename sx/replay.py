"""Concrete runner (python of the project's own environment): replays scenario inputs on unmodified /repo code.

stdin: JSON lines {"mod","fn","params","inputs"}; stdout: JSON lines {"status","label","detail","observed","reached"}.
"""
import json
import os
import sys
import tempfile
import traceback
import warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"


def one(job):
    import ctypes
    import ctypes.util
    from sx import cenv, common
    for k in list(sys.modules):
        if k.split(".")[0] in ("saltchannel", "nacl", "tweetnacl", "scen"):
            del sys.modules[k]
    ctypes.cdll.LoadLibrary, ctypes.CDLL, os.urandom = ORIG["load"], ORIG["cdll"], ORIG["urandom"]
    ctypes.memmove = cenv.checked_memmove
    ctypes.addressof = cenv.checked_addressof
    ctypes.util.find_library = lambda name: "lib%s.so" % name
    cenv._sizes.clear()
    import asyncio
    asyncio.set_event_loop(asyncio.new_event_loop())
    env = cenv.ConcEnv(job["inputs"], job["params"])
    out = {"status": "ok", "label": None, "detail": ""}
    try:
        import importlib
        mod = importlib.import_module("scen." + job["mod"])
        getattr(mod, job["fn"])(env, **job["params"].get("args", {}))
    except common.CheckFailed as e:
        out.update(status="violation", label=e.label, detail=str(e.detail))
    except common.AssumeFailed:
        out["status"] = "infeasible"
    except common.MemFault as e:
        out.update(status="violation", label="memory-fault", detail=str(e))
    except common.Blocked as e:
        out.update(status="violation", label="blocked-forever", detail=str(e))
    except Exception as e:
        out.update(status="api" if common.api_gap(e) else "violation", label="unexpected-exception:%s" % type(e).__name__,
                   detail=traceback.format_exc()[-1500:])
    finally:
        try:
            asyncio.get_event_loop().close()
        except Exception:
            pass
    out["observed"], out["reached"], out["missing"] = env.observed, sorted(set(env.reached)), env.missing
    return out


def main():
    global ORIG
    warnings.simplefilter("ignore")
    sys.dont_write_bytecode = True
    sys.pycache_prefix = tempfile.mkdtemp(prefix="sxpyc")
    sys.path[:] = [VERIF, REPO] + [p for p in sys.path if os.path.abspath(p or ".") not in (REPO, VERIF + "/sx")]
    import logging
    logging.disable(logging.CRITICAL)
    import ctypes
    ORIG = {"load": ctypes.cdll.LoadLibrary, "cdll": ctypes.CDLL, "urandom": os.urandom}
    real_out = os.dup(1)
    os.dup2(2, 1)               # code under test may print
    fo = os.fdopen(real_out, "w")
    for line in sys.stdin:
        if not line.strip():
            continue
        job = json.loads(line)
        fo.write(json.dumps(one(job)) + "\n")
        fo.flush()
    os.rmdir(sys.pycache_prefix)


if __name__ == "__main__":
    main()
