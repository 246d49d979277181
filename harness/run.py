"""python run.py <property id>: run one check. see ../DESIGN.md."""
import importlib
import sys
import traceback
from pathlib import Path

sys.dont_write_bytecode = True
sys.path.insert(0, str(Path(__file__).resolve().parent))

import lib  # noqa: E402


def main():
    prop = sys.argv[1]
    ctx = lib.Ctx(prop, tier=sys.argv[2] if len(sys.argv) > 2 else None)
    lib.use_repo()
    try:
        importlib.import_module(f"props.{prop.lower()}").run(ctx)
        rc = ctx.finish()
    except lib.MachineryError as ex:
        print(f"ERROR property={prop}: {ex}")
        rc = 2
    except Exception as ex:
        traceback.print_exc(file=sys.stdout)
        if lib.blame(ex) == "raised" and "/dustgoggles/" in traceback.format_exc():
            ctx.violation("the code under test raised: " + repr(ex)[:300],
                          {"traceback": traceback.format_exc()[-3000:]})
            rc = ctx.finish()
        else:
            print(f"ERROR property={prop}:")
            rc = 2
    sys.stdout.flush()
    sys.stderr.flush()
    import os

    os._exit(rc)


if __name__ == "__main__":
    main()
