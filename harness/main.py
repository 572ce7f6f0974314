"""usage: main.py PROPERTY-ID   (VERIF_TIER=quick|thorough, VERIF_SEED=n)"""
import faulthandler
import importlib
import os
import signal
import sys
import traceback
import warnings

HERE = os.path.dirname(os.path.abspath(__file__))
sys.dont_write_bytecode = True
sys.path.insert(0, HERE)
warnings.simplefilter("ignore")
faulthandler.register(signal.SIGUSR1)
import core  # noqa: E402

sys.path.insert(0, core.REPO)

REGISTRY = {
    "C01": ("slot", "c01"),
    "C02": ("slot", "c02"),
    "C03": ("slot", "c03"),
    "C04": ("slot", "c04"),
    "C05": ("traits", "c05"),
    "C06": ("coll", "c06"),
    "C07": ("coll", "c07"),
    "C08": ("heap", "c08"),
    "C09": ("heap", "c09"),
    "C10": ("jsonrec", "c10"),
    "C11": ("jsonrec", "c11"),
    "C12": ("jsonrec", "c12"),
    "C13": ("selector", "c13"),
    "C14": ("selector", "c14"),
    "C15": ("path", "c15"),
    "C16": ("mfs", "c16"),
    "C17": ("mfsdoc", "c17"),
    "C18": ("diffs", "c18"),
    "C19": ("diffs", "c19"),
    "C20": ("diffs", "c20"),
    "C21": ("diffs", "c21"),
    "C22": ("visit", "c22"),
    "C23": ("visit", "c23"),
    "C24": ("classes", "c24"),
    "C25": ("autorec", "c25"),
    "C26": ("empty", "c26"),
    "C27": ("typed", "c27"),
}


def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(sys.argv) > 2 and sys.argv[2] in ("quick", "thorough"):
        tier = sys.argv[2]
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    check = core.Check(pid, tier, seed)
    core.limit_memory(8 << 30)
    mod, func = REGISTRY[pid]
    try:
        try:
            m = importlib.import_module(mod)
            getattr(m, func)(check)
        except core.SpecError:
            raise
        except Exception as e:
            if not core.touches_code(e.__traceback__):
                raise
            # the library failed where the harness only sets things up
            check.fail("the library raised %r during set-up" % e,
                       {"traceback": traceback.format_exc()}, "setup")
        rc = check.finish()
    except Exception:
        traceback.print_exc()
        rc = 2
        try:
            # what was found before the check failed is still true
            if check.failures and check.finish() == 1:
                rc = 1
        except Exception:
            traceback.print_exc()
    sys.stdout.flush()
    os._exit(rc)


main()
