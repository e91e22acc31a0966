"""Two processes generating live type hints at once, stopped where they are told to."""
import json
import os
import signal
import sys
import traceback

from live_ops import expectation, observe, perform, read_disk, wipe, write_disk

FILE_MODULES = ("posix", "nt", "shutil")


def about_files(func):
    if getattr(func, "__module__", None) in FILE_MODULES:
        return func.__name__ not in ("fspath", "getpid", "urandom", "_path_normpath", "getcwd")
    if getattr(func, "__module__", None) in ("io", "_io"):
        return True
    return type(getattr(func, "__self__", None)).__module__ == "_io"


class Process:
    """Performs the event in another process, that stops before its n-th call about files until it is told to go on."""

    def __init__(self, ev, stop, scratch):
        self.said, said = os.pipe()
        told, self.tell = os.pipe()
        self.pid = os.fork()
        if self.pid == 0:
            try:
                signal.alarm(60)
                os.close(self.said)
                os.close(self.tell)
                out = self.play(ev, stop, scratch, said, told)
                os.write(said, (json.dumps(out) + "\n").encode())
                os._exit(0)
            except BaseException:  # noqa: BLE001
                traceback.print_exc()
                os._exit(1)
        os.close(said)
        os.close(told)
        self.said = os.fdopen(self.said, "r")
        self.out = None
        self.listen()

    @staticmethod
    def play(ev, stop, scratch, said, told):
        calls = 0

        def tracer(frame, what, arg):
            nonlocal calls
            if what == "c_call" and about_files(arg):
                if calls == stop:
                    sys.setprofile(None)
                    os.write(said, b'"stopped"\n')
                    os.read(told, 1)
                    calls += 1
                    sys.setprofile(tracer)
                else:
                    calls += 1

        sys.setprofile(tracer)
        try:
            out = perform(ev, {}, scratch)
        finally:
            sys.setprofile(None)
        return [*out, calls]

    def listen(self):
        line = self.said.readline()
        if not line:
            os.waitpid(self.pid, 0)
            raise RuntimeError("process failed")
        out = json.loads(line)
        if out != "stopped":
            self.out = out
            self.said.close()
            os.close(self.tell)
            os.waitpid(self.pid, 0)

    def go_on(self):
        if self.out is None:
            os.write(self.tell, b"x")
            self.listen()


def op_race(req, scratch):
    wipe()
    rec = {"id": req["id"], "history": req["history"], "pair": req["pair"], "runs": []}
    for ev in [*req["history"], *req["pair"]]:
        ev["expect"] = expectation(req, ev, scratch)
    for ev in req["history"]:
        ev["out"], _ = perform(ev, {}, scratch)
    before = read_disk()
    places = [os.path.join(scratch, f"p{i}") for i in (1, 2)]
    for place in places:
        os.makedirs(place, exist_ok=True)
    counts = []
    for i in (0, 1):
        write_disk(before)
        counts.append(Process(req["pair"][i], -1, places[i]).out[2])
    rec["counts"] = counts
    seen = {}
    for x, y in req["stops"]:
        write_disk(before)
        i, j = int(x * (counts[0] + 1)), int(y * (counts[1] + 1))
        states = []
        one = Process(req["pair"][0], i, places[0])
        two = Process(req["pair"][1], j, places[1])
        states.append(read_disk())
        one.go_on()
        states.append(read_disk())
        two.go_on()
        states.append(read_disk())
        key = repr((one.out[:2], two.out[:2], states))
        if key not in seen:
            seen[key] = True
            obs = []
            for state in states:
                write_disk(state)
                obs.append(observe())
            rec["runs"].append({"stops": [i, j], "outs": [one.out[0], two.out[0]], "obs": obs})
    wipe()
    return rec
