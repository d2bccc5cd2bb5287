#!/usr/bin/env python3
"""check.py <property> [--only CASE]   (VERIF_TIER, VERIF_SEED from the environment)"""
import importlib, os, sys, traceback
here = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(here, "lib"), os.path.join(here, "checks")]
os.environ.setdefault("OMP_NUM_THREADS", "1"); os.environ.setdefault("OPENBLAS_NUM_THREADS", "1")
import core, build
def main():
    pid = sys.argv[1].upper(); only = sys.argv[sys.argv.index("--only") + 1] if "--only" in sys.argv else None
    ctx = core.Ctx(pid, os.environ.get("VERIF_TIER", "quick"), int(os.environ.get("VERIF_SEED", "1") or 1), only)
    try:
        mod = importlib.import_module(pid.lower())
        fin = mod.run(ctx) or {}
        return ctx.finish(fin.get("rule", mod.__doc__ or ""), fin.get("assumptions", getattr(mod, "ASSUME", ())), fin.get("extra"))
    except core.Fails as e:
        ctx.bad("cannot-judge", str(e)); return ctx.finish(mod.__doc__ or "", getattr(mod, "ASSUME", ()))
    except core.Inconclusive as e:
        print("INCONCLUSIVE: %s" % e); return 2
    except build.BuildError as e:
        print("BUILD FAILED (inconclusive): %s" % e); return 2
    except (OSError, MemoryError):
        traceback.print_exc(); return 2
    except Exception:
        traceback.print_exc(); ctx.bad("cannot-judge", traceback.format_exc()[-2000:]); return ctx.finish(mod.__doc__ or "", getattr(mod, "ASSUME", ()))
    finally:
        ctx.close()
if __name__ == "__main__":
    rc = main(); sys.stdout.flush(); os._exit(rc)
