import importlib, os, sys, traceback, warnings
warnings.simplefilter("ignore")
os.environ.setdefault("MPLBACKEND", "Agg")


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    import numpy as np
    np.seterr(all="ignore")
    np.random.seed(seed)
    from harness import core
    try:
        mod = importlib.import_module("harness." + pid.lower())
        ctx = core.Ctx(pid, tier, seed)
        mod.run(ctx)
        rc = ctx.finish()
    except core.MachineryError as e:
        print("CHECK ERROR:", e)
        rc = 2
    except Exception:
        traceback.print_exc(file=sys.stdout)
        rc = 2
    finally:
        import shutil
        if "ctx" in locals():
            shutil.rmtree(ctx.work, ignore_errors=True)
    sys.stdout.flush()
    sys.exit(rc)


if __name__ == "__main__":
    main()
