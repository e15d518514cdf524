"""Shared parts of the checks: running TLC, known findings, evidence, verdicts."""
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time
import threading
import hashlib
import random
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class TlcError(Exception):
    pass


class Tlc:
    """result of one TLC run: emitted records, number of states"""

    def __init__(self, records, generated, distinct, out):
        self.records, self.generated, self.distinct, self.out = records, generated, distinct, out


SLOTS = threading.Semaphore(8)


def tlc(module, *args, **kw):
    with SLOTS:
        return _tlc(module, *args, **kw)


def _tlc(module, consts=None, files=None, workers=2, timeout=800, heap="3g", cfg=None, args=(), want_error=False):
    """runs TLC on a module of spec/ in a scratch directory of its own; returns what it printed as @@ records"""
    d = tempfile.mkdtemp(prefix="vtlc_")
    try:
        for f in os.listdir(SPEC):
            if f.endswith(".tla"):
                shutil.copy(os.path.join(SPEC, f), d)
        text = cfg if cfg is not None else open(os.path.join(SPEC, module + ".cfg")).read()
        for k, v in (consts or {}).items():
            text = text.replace("@%s@" % k, str(v))
        open(os.path.join(d, module + ".cfg"), "w").write(text)
        for name, obj in (files or {}).items():
            with open(os.path.join(d, name), "w") as fh:
                json.dump(obj, fh)
        cmd = ["java", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2", "-Xss512m", "-Djava.io.tmpdir=" + d, "-Xmx" + heap, "-Dfile.encoding=UTF-8", "-cp", JARS, "tlc2.TLC",
               "-workers", str(workers), "-metadir", os.path.join(d, "md"), "-noGenerateSpecTE", "-config", module + ".cfg", *args, module + ".tla"]
        p = subprocess.run(cmd, cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
        out = p.stdout.decode("utf-8", "replace")
        records, rest = [], []
        for line in out.split("\n"):
            if line.startswith('"@@'):
                records.append(json.loads(json.loads(line)[2:]))
            else:
                rest.append(line)
        rest = "\n".join(rest)
        m = re.search(r"(\d+) states generated, (\d+) distinct states found", rest)
        if "No error has been found" not in rest and not want_error:
            raise TlcError("TLC failed on %s (%s):\n%s" % (module, consts, rest[-4000:]))
        return Tlc(records, int(m.group(1)) if m else 0, int(m.group(2)) if m else 0, rest)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def parallel(jobs, n=4):
    """runs thunks, n at a time, and returns their results in order"""
    with ThreadPoolExecutor(n) as ex:
        return [f.result() for f in [ex.submit(j) for j in jobs]]


def known_findings(prop):
    path = os.path.join(VERIF, "known_findings.jsonl")
    out = []
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith("{"):
                d = json.loads(line)
                if d.get("property") == prop:
                    out.append(d)
    return out


class Check:
    def __init__(self, prop, level="model_checking"):
        self.prop, self.level = prop, level
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        self.t0 = time.time()
        self.states = self.transitions = self.traces = 0
        self.samples, self.bad, self.known = [], [], {}
        self.extra, self.assumptions = {}, []
        self.findings = known_findings(prop)
        self.rng = random.Random(SEED * 1000003 + int(hashlib.md5(prop.encode()).hexdigest()[:6], 16))

    @property
    def thorough(self):
        return self.tier == "thorough"

    def add_tlc(self, r):
        self.states += r.distinct
        self.transitions += r.generated

    def sample(self, obj, limit=4):
        if len(self.samples) < limit:
            self.samples.append(obj)

    def violation(self, what, detail, key=None):
        """key: what identifies the failing input in known_findings.jsonl"""
        for f in self.findings:
            if key is not None and f.get("key") == key:
                self.known.setdefault(key, f.get("what", what))
                return
        self.bad.append({"what": what, "detail": detail})

    def finish(self):
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        cov = {"states": self.states, "transitions": self.transitions, "traces_validated_against_impl": self.traces,
               "samples": self.samples or ["none"]}
        cov.update(self.extra)
        ev = {"property": self.prop, "tier": self.tier, "seed": SEED, "level": self.level, "coverage": cov,
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2), "violations": len(self.bad)}
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as fh:
            json.dump(ev, fh, indent=1)
        for key, what in self.known.items():
            print("KNOWN-FINDING: property=%s %s" % (self.prop, what))
        print("%s %s: states=%d transitions=%d traces=%d violations=%d wall=%.1fs %s" % (
            self.prop, self.tier, self.states, self.transitions, self.traces, len(self.bad), time.time() - self.t0, json.dumps(self.extra)[:300]))
        path = os.path.join(VERIF, "evidence", "replay_%s.json" % self.prop)
        if os.path.exists(path):
            os.remove(path)
        if self.bad:
            with open(path, "w") as fh:
                json.dump(self.bad[:int(os.environ.get("VERIF_KEEP", "50"))], fh, indent=1)
            for b in self.bad[:5]:
                print("  " + b["what"])
            print("VIOLATION property=%s replay=%s" % (self.prop, path))
            return 1
        return 0


def workers(n):
    """a pool of processes, forked now, before any thread exists"""
    from concurrent.futures import ProcessPoolExecutor
    pool = ProcessPoolExecutor(n)
    pool.submit(int).result()
    return pool
