import importlib, os, sys, traceback, warnings

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(HERE, "checks"))
import core  # noqa

sys.path.insert(0, core.REPO)
warnings.simplefilter("ignore")


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    ck = core.Check(pid, tier, seed)
    try:
        try:
            import utide
            assert os.path.dirname(os.path.abspath(utide.__file__)) == os.path.join(core.REPO, "utide"), utide.__file__
        except Exception as e:  # the package itself is broken
            ck.violation(f"importing utide failed: {e!r}", {"traceback": traceback.format_exc()})
            return ck.finish()
        importlib.import_module(pid.lower()).run(ck)
        return ck.finish()
    except core.MachineryError as e:
        print("MACHINERY ERROR:", e, flush=True)
        return 2
    except Exception as e:
        tb = traceback.format_exc()
        print(tb, flush=True)
        if os.path.join(core.REPO, "utide") + os.sep in tb or isinstance(e, core.CaseTimeout):
            # the code under test raised where the specification expects a result
            ck.violation(f"unexpected exception from utide: {e!r}", {"traceback": tb})
            return ck.finish()
        return 2
    finally:
        ck.cleanup()


if __name__ == "__main__":
    rc = main()
    sys.stdout.flush()
    os._exit(rc) if rc == 2 else sys.exit(rc)
