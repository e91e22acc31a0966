"""Plumbing shared by the checks: scratch copies, drivers, TLC, evidence and verdicts."""
import json
import os
import random
import re
import shutil
import subprocess
import sys
import tempfile
import time
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
PY = "/opt/venv/bin/python" if os.path.exists("/opt/venv/bin/python") else sys.executable
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
SPECS = os.path.join(ROOT, "specs")
HARNESS = os.path.join(ROOT, "harness")
OUT = os.path.join(ROOT, "out")
WORKERS = max(2, min(8, os.cpu_count() or 2))


class MachineryError(Exception):
    pass


class Unanswered(Exception):
    """The code under test hung, or failed in a way that left nothing to judge; it is already reported."""


class Check:
    def __init__(self, prop, level="model_checking"):
        self.prop, self.level = prop, level
        self.tier = "thorough" if os.environ.get("VERIF_TIER") == "thorough" else "quick"
        self.seed = int(os.environ.get("VERIF_SEED", "1") or "1")
        self.rng = random.Random(f"{prop}-{self.seed}")
        self.t0 = time.time()
        self.dir = tempfile.mkdtemp(prefix=f"verif-{prop}-")
        self.violations = []
        self.coverage = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": []}
        self.assumptions = []
        self._pkg = None
        self._n = 0
        self.known = known_findings(prop)
        self.known_hits = set()

    @property
    def thorough(self):
        return self.tier == "thorough"

    def pick(self, quick, thorough):
        return thorough if self.thorough else quick

    def path(self, name):
        self._n += 1
        return os.path.join(self.dir, f"{self._n:04d}-{name}")

    def mkdir(self, name):
        path = self.path(name)
        os.makedirs(path)
        return path

    # -- the code under test ------------------------------------------------
    def package(self, fresh=False):
        """A scratch copy of the package, so that nothing it writes reaches /repo."""
        if self._pkg is None or fresh:
            pkg = self.mkdir("pkg")
            shutil.copytree(
                os.path.join(REPO, "lazy_type_hint"), os.path.join(pkg, "lazy_type_hint"),
                ignore=shutil.ignore_patterns("build", "*.pyi", "__pycache__", "*.pyc"))
            if fresh:
                return pkg
            self._pkg = pkg
        return self._pkg

    def env(self, pkg, **extra):
        tmp = self.mkdir("tmp")
        env = {"PATH": os.environ.get("PATH", ""), "HOME": tmp, "TMPDIR": tmp, "PYTHONPATH": pkg, "PKG": pkg,
               "PYTHONDONTWRITEBYTECODE": "1", "PYTHONHASHSEED": "0", "LANG": "C.UTF-8", "LC_ALL": "C.UTF-8",
               "OMP_NUM_THREADS": "1", "OPENBLAS_NUM_THREADS": "1", "VERIF_SEED": str(self.seed)}
        env.update(extra)
        return env

    def drive(self, requests, shards=None, timeout=600, own_package=False, **extra):
        """Run the requests in parallel processes. Returns the records, in order of request."""
        requests = list(requests)
        if not requests:
            return []
        shards = min(shards or WORKERS, len(requests))
        parts = [requests[i::shards] for i in range(shards)]

        def one(part):
            pkg = self.package(fresh=True) if own_package else self.package()
            src, dst, scratch = self.path("req"), self.path("rec"), self.mkdir("scratch")
            write_ndjson(src, part)
            proc = subprocess.run([PY, os.path.join(HARNESS, "drive.py"), src, dst, scratch],
                                  env=self.env(pkg, **extra), capture_output=True, text=True, timeout=timeout,
                                  check=False)
            if proc.returncode != 0:
                raise MachineryError(f"driver failed ({proc.returncode}):\n{proc.stderr[-3000:]}")
            recs = read_ndjson(dst)
            shutil.rmtree(scratch, ignore_errors=True)
            if own_package:
                shutil.rmtree(pkg, ignore_errors=True)
            return recs

        if self._pkg is None:
            self.package()
        with ThreadPoolExecutor(shards) as pool:
            recs = [r for part in pool.map(one, parts) for r in part]
        recs.sort(key=lambda r: r["id"])
        lost = [r for r in recs if "unanswered" in r]
        for rec in lost:
            self.violation(["unanswered"], {**rec.pop("req"), **rec})
        if lost:
            raise Unanswered
        return recs

    # -- TLC ------------------------------------------------------------------
    def tlc(self, module, cfg=None, workers=1, heap="3g", timeout=840, ok_codes=(0,), args=(), **env):
        meta = self.mkdir("meta")
        cmd = ["java", "-Xss64m", f"-Xmx{heap}", "-XX:+UseParallelGC", f"-Djava.io.tmpdir={meta}", "-cp", JARS, "tlc2.TLC",
               "-metadir", meta, "-noGenerateSpecTE", "-workers", str(workers), "-config", cfg or f"{module}.cfg",
               *args, f"{module}.tla"]
        full = {**os.environ, **{k: str(v) for k, v in env.items()}}
        proc = subprocess.run(cmd, cwd=SPECS, env=full, capture_output=True, text=True, timeout=timeout, check=False)
        shutil.rmtree(meta, ignore_errors=True)
        out = proc.stdout + proc.stderr
        if proc.returncode not in ok_codes:
            raise MachineryError(f"TLC {module} ended with {proc.returncode}:\n{out[-4000:]}")
        m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", out)
        if m:
            gen, distinct = (int(x.replace(",", "")) for x in m[-1])
            self.coverage["states"] += distinct
            self.coverage["transitions"] += gen
        return out

    def judge(self, module, records, shards=None, per_shard=150, **env):
        """Have TLC judge the records: one step of the trace specification per record. -> {id: {clauses}}"""
        records = list(records)
        if not records:
            return {}
        shards = max(1, min(shards or WORKERS, len(records) // per_shard + 1))
        parts = [records[i::shards] for i in range(shards)]

        def one(part):
            path = self.path("judge")
            write_ndjson(path, part)
            out = self.tlc(module, RECS=path, **env)
            os.remove(path)
            return bad_of(out)

        bad = {}
        with ThreadPoolExecutor(shards) as pool:
            for found in pool.map(one, parts):
                bad.update(found)
        self.coverage["traces_validated_against_impl"] += len(records)
        return bad

    def gen(self, module, cfg=None, **env):
        """Have TLC write the cases of a model."""
        path = self.path("cases")
        self.tlc(module, cfg, CASES=path, **env)
        return read_ndjson(path)

    def model(self, module, cfg=None, workers=None, **env):
        """Model-check a specification on its own. A broken specification is an error, not a violation."""
        return self.tlc(module, cfg, workers=workers or WORKERS, heap="6g", **env)

    # -- verdicts -------------------------------------------------------------
    def report(self, bad, records, replay_of=None):
        """Turn the clauses that failed into violations, known findings apart."""
        by_id = {r["id"]: r for r in records}
        for ident, clauses in sorted(bad.items(), key=lambda x: str(x[0])):
            rec = by_id.get(ident)
            self.violation(clauses, replay_of(rec) if replay_of and rec else rec)

    def violation(self, clauses, detail):
        key = json.dumps(detail, sort_keys=True, default=str)
        for finding in self.known:
            if finding["clause"] in clauses and finding["match"] in key:
                self.known_hits.add(finding["text"])
                clauses = [c for c in clauses if c != finding["clause"]]
        if clauses:
            self.violations.append((sorted(clauses), detail))

    def sample(self, *items, n=3):
        for item in items:
            if len(self.coverage["samples"]) < n:
                text = json.dumps(item, default=str)
                self.coverage["samples"].append(item if len(text) < 3000 else text[:3000])

    def count(self, name, n=1):
        self.coverage[name] = self.coverage.get(name, 0) + n

    def finish(self):
        evidence = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": self.level,
                    "coverage": self.coverage, "assumptions": self.assumptions,
                    "wall_s": round(time.time() - self.t0, 2), "violations": len(self.violations)}
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        with open(os.path.join(ROOT, "evidence", f"{self.prop}.json"), "w", encoding="utf-8") as file:
            json.dump(evidence, file, indent=1, default=str)
        for text in sorted(self.known_hits):
            print(f"KNOWN-FINDING: property={self.prop} {text}")
        dst = os.path.join(OUT, self.prop)
        shutil.rmtree(dst, ignore_errors=True)
        if self.violations:
            os.makedirs(dst)
            for idx, (clauses, detail) in enumerate(self.violations[:20]):
                path = os.path.join(dst, f"{idx}.json")
                with open(path, "w", encoding="utf-8") as file:
                    json.dump({"property": self.prop, "clauses": clauses, "detail": detail}, file, indent=1, default=str)
                print(f"VIOLATION property={self.prop} replay={path}")
                print(f"  clauses: {', '.join(clauses)}")
            if len(self.violations) > 20:
                print(f"  ... and {len(self.violations) - 20} more")
            return 1
        print(f"ok property={self.prop} tier={self.tier} wall={evidence['wall_s']}s "
              + " ".join(f"{k}={v}" for k, v in self.coverage.items() if isinstance(v, int)))
        return 0

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)


def bad_of(out):
    bad = {}
    text = re.sub(r"\n\s+", " ", out)
    for ident, clauses in re.findall(r'<<\s*"BAD",\s*(\d+),\s*\{(.*?)\}\s*>>', text):
        bad.setdefault(int(ident), set()).update(re.findall(r'"([^"]*)"', clauses))
    if '"BAD"' in out and not bad:
        raise MachineryError("verdicts could not be read:\n" + out[-2000:])
    return {k: sorted(v) for k, v in bad.items()}


def known_findings(prop):
    """known_findings.txt: JSON lines {"property", "clause", "match", "text"}; the rest of lines suppress nothing."""
    path = os.path.join(ROOT, "known_findings.txt")
    if not os.path.exists(path):
        return []
    with open(path, encoding="utf-8") as file:
        found = [json.loads(line) for line in file if line.startswith("{")]
    return [f for f in found if f["property"] == prop]


def write_ndjson(path, items):
    with open(path, "w", encoding="utf-8") as file:
        for item in items:
            file.write(json.dumps(item) + "\n")


def read_ndjson(path):
    with open(path, encoding="utf-8") as file:
        return [json.loads(line) for line in file if line.strip()]
