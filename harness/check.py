#!/usr/bin/env python3
"""check.py <property id>: runs one check.  Exit 0 held, 1 violated, 2 machinery error."""
import importlib, os, sys, traceback
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
for k, v in {"MPLBACKEND": "Agg", "OMP_NUM_THREADS": "1", "OPENBLAS_NUM_THREADS": "1", "LC_ALL": "C.UTF-8"}.items():
    os.environ.setdefault(k, v)
if os.environ.get("PYTHONHASHSEED") != "0":
    os.environ["PYTHONHASHSEED"] = "0"
    os.execv(sys.executable, [sys.executable] + sys.argv)
import vlib


def unreadable(e):
    """did the implementation fail or answer with something of another kind (as opposed to the machinery failing)?

    Every value the harness handles outside the machinery comes from a call of the implementation that succeeds on any tree
    where the property holds; a name that has moved, a full disk or a failing TLC is a machinery error."""
    if isinstance(e, (ImportError, OSError, MemoryError, NameError)) or (isinstance(e, AttributeError) and "module" in str(e)):
        return False
    frames = [f.filename for f in traceback.extract_tb(e.__traceback__)]
    own = [os.path.abspath(f) for f in frames if f.startswith(vlib.VERIF + os.sep) or f.startswith(os.path.join(vlib.REPO, ""))]
    return bool(own) and not any(f.endswith("vlib.py") and i == len(own) - 1 for i, f in enumerate(own))


def main():
    pid = sys.argv[1]
    os.makedirs(os.path.join(vlib.VERIF, "evidence"), exist_ok=True)
    ctx = vlib.Ctx(pid)
    try:
        vlib.setup_repo()
        mod = importlib.import_module(pid.lower())
        extra = mod.run(ctx)
        return ctx.finish(extra)
    except vlib.MachineryError as e:
        print("ERROR", e)
        return 2
    except Exception as e:
        traceback.print_exc()
        if not unreadable(e):
            return 2
        ctx.fails.append(("unreadable:" + type(e).__name__, "the implementation failed, or returned something that cannot be read as a result: "
                          + str(e)[:200], {"op": "crash", "trace": traceback.format_exc()[-3000:]}))
        return ctx.finish()
    finally:
        ctx.close()


rc = main()
sys.stdout.flush()
os._exit(rc)
