import importlib
import json
import sys
import traceback

from framework import Check, MachineryError, Unanswered

import registry


def main(argv):
    prop = argv[0]
    replay = argv[argv.index("--replay") + 1] if "--replay" in argv else None
    check = Check(prop)
    try:
        run = registry.CHECKS[prop]
        if replay:
            check.replay = json.load(open(replay, encoding="utf-8"))["detail"]
        try:
            run(check)
        except Unanswered:
            pass
        return check.finish()
    except MachineryError as error:
        print(f"MACHINERY ERROR property={prop}: {error}", file=sys.stderr)
        return 2
    except Exception:  # noqa: BLE001
        traceback.print_exc()
        return 2
    finally:
        check.close()
