"""Run requests against the real code and write one record per request.

usage: drive.py REQUESTS.ndjson RECORDS.ndjson SCRATCH     (PYTHONPATH: the copy of the package under test)
"""
import json
import os
import signal
import sys
import traceback

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))

import lazy_type_hint  # noqa: E402

import api_ops  # noqa: E402
import callable_ops  # noqa: E402
import frame_ops  # noqa: E402
import key_ops  # noqa: E402
import kind_ops  # noqa: E402
import live_ops  # noqa: E402
import object_ops  # noqa: E402
import ops  # noqa: E402
import race_ops  # noqa: E402
import tree_ops  # noqa: E402
import yaml_ops  # noqa: E402

LIMIT = 120  # seconds per request
signal.signal(signal.SIGALRM, lambda *_: on_alarm())
OPS = {**vars(ops), **vars(live_ops), **vars(yaml_ops), **vars(api_ops), **vars(callable_ops),
       **vars(frame_ops), **vars(key_ops), **vars(object_ops), **vars(race_ops), **vars(kind_ops),
       **vars(tree_ops)}


class Hang(BaseException):
    pass


def on_alarm(*_):
    raise Hang("no answer")


def main():
    src, dst, scratch = sys.argv[1:4]
    assert os.path.realpath(lazy_type_hint.__file__).startswith(os.path.realpath(os.environ["PKG"])), (
        lazy_type_hint.__file__)
    os.chdir(scratch)
    with open(src, encoding="utf-8") as fin, open(dst, "w", encoding="utf-8") as fout:
        for line in fin:
            req = json.loads(line)
            signal.alarm(LIMIT)
            try:
                rec = OPS["op_" + req["op"]](req, scratch)
            except BaseException:  # noqa: BLE001  the code did something no operation is ready for, or never ended
                fout.write(json.dumps({"id": req["id"], "unanswered": traceback.format_exc()[-2000:], "req": req}) + "\n")
                break
            finally:
                signal.alarm(0)
            if rec is not None:
                fout.write(json.dumps(rec) + "\n")


if __name__ == "__main__":
    main()
