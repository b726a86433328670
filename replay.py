#!/opt/venv/bin/python
"""replay.py FILE.json | --batch -   run concrete cases against /repo's plain code."""
import importlib
import json
import logging
import os
import resource
import select
import signal
import sys
import time
import warnings

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.path.insert(0, "/repo")
warnings.simplefilter("ignore")
logging.disable(logging.CRITICAL)


class Timeout(SystemExit):
    pass


def _alarm(*_):
    raise Timeout()


def run(case, per_case):
    box = {}
    out = attempt(case, per_case, box)
    v = box["ctx"].verdict if box.get("ctx") is not None else None
    if v is not None and out["outcome"] != type(v).__name__.lower():
        return {"outcome": type(v).__name__.lower(), "msg": str(v)}
    return out


def attempt(case, per_case, box):
    from sx.ctx import Ctx, Violation, Skip
    signal.signal(signal.SIGALRM, _alarm)
    ctx = None
    try:
        signal.setitimer(signal.ITIMER_REAL, per_case, 2)
        m = importlib.import_module("props." + case["mod"])
        ctx = box["ctx"] = Ctx(case["inputs"])
        f = getattr(m, case["fn"])
        if getattr(f, "solver_unit", False):
            f = getattr(m, f.replay)
        f(ctx, **case["params"])
        return {"outcome": "ok", "obs": ctx.obs, "reached": sorted(ctx.reached)}
    except Violation as e:
        return {"outcome": "violation", "msg": str(e)}
    except Skip:
        return {"outcome": "skip"}
    except Timeout:
        return {"outcome": "violation", "msg": "does not finish"}
    except RecursionError:
        return {"outcome": "violation", "msg": "unexpected RecursionError"}
    except (Exception, SystemExit) as e:
        import traceback
        return {"outcome": "violation", "msg": f"unexpected {type(e).__name__}",
                "detail": traceback.format_exc()[-1200:]}
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        try:
            if ctx is not None:
                ctx.cleanup()
        except BaseException:
            pass


def forked(case, per):
    """one case in a process of its own: class-level state does not leak between cases"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            cpu = int(per) + 10
            resource.setrlimit(resource.RLIMIT_CPU, (cpu, cpu))
            d = json.dumps(run(case, per)).encode()
            while d:
                d = d[os.write(w, d):]
        finally:
            os._exit(0)
    os.close(w)
    out, end = b"", time.monotonic() + per + 20
    while True:
        if not select.select([r], [], [], max(end - time.monotonic(), 0))[0]:
            os.kill(pid, signal.SIGKILL)
            os.waitpid(pid, 0)
            os.close(r)
            return json.dumps({"outcome": "timeout"})
        b = os.read(r, 65536)
        if not b:
            break
        out += b
    os.close(r)
    if os.WIFSIGNALED(os.waitpid(pid, 0)[1]):
        return json.dumps({"outcome": "violation", "msg": "does not finish"})
    return out.decode() or json.dumps({"outcome": "none"})


def main():
    per = 30.0
    if "--per-case" in sys.argv:
        per = float(sys.argv[sys.argv.index("--per-case") + 1])
    if sys.argv[1] == "--batch":
        cases = json.load(sys.stdin)
        import asyncio, pyown.items.utils, sx.ctx, sx.vloop  # noqa: shared by the children
        for m in {c["mod"] for c in cases}:
            try:
                importlib.import_module("props." + m)
            except Exception:
                pass
        for c in cases:
            print(forked(c, per), flush=True)
        os._exit(0)
    c = json.load(open(sys.argv[1]))
    o = run(c, per)
    print(json.dumps(c, indent=1))
    print(json.dumps(o, indent=1))
    sys.exit(1 if o["outcome"] == "violation" else 0)


if __name__ == "__main__":
    main()
