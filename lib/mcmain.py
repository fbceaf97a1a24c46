"""Entry point of every check: run.sh <ID> [quick|thorough] [--replay FILE] [--jobs N]."""
import importlib.util
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.path.insert(1, os.path.join(os.path.dirname(HERE), "checks"))
import mcimport  # noqa: E402,F401  (binds the freshly built extension modules)


def main():
    args = sys.argv[1:]
    prop = args.pop(0)
    tier = os.environ.get("VERIF_TIER", "quick")
    replay = None
    while args:
        a = args.pop(0)
        if a in ("quick", "thorough"):
            tier = a
        elif a == "--replay":
            replay = args.pop(0)
        elif a == "--jobs":
            os.environ["MC_JOBS"] = args.pop(0)
        elif a == "--only":
            os.environ["MC_ONLY"] = args.pop(0)
    path = os.path.join(os.path.dirname(HERE), "checks", prop.lower() + ".py")
    spec = importlib.util.spec_from_file_location("check_" + prop.lower(), path)
    mod = importlib.util.module_from_spec(spec)
    sys.modules[spec.name] = mod
    import mcrt
    try:
        spec.loader.exec_module(mod)
    except Exception:  # the tree under test cannot even be imported: a verdict, not a crash
        import traceback
        mcrt.import_failure(prop, tier, traceback.format_exc())
    sys.exit(mcrt.drive(prop, mod, tier, replay))


main()
