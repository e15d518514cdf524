"""C16: environment files say what spec/Env.tla says."""
import io
import json
import os
import random
import shutil
import tempfile
import threading

import adapter
from common import Check, SEED, parallel, tlc, workers
from planrun import chunks

WAYS = ["text", "file", "stringio", "bytesio", "open file", "open binary file"]


def read(text, way, path):
    from mygrations.helpers.dotenv import dotenv
    with adapter.quiet():
        fh = None
        try:
            if way == "text":
                src = text
            elif way == "stringio":
                src = io.StringIO(text)
            elif way == "bytesio":
                src = io.BytesIO(text.encode())
            else:
                with open(path, "w", newline="") as f:
                    f.write(text)
                src = path
                if way == "open file":
                    src = fh = open(path)
                if way == "open binary file":
                    src = fh = open(path, "rb")
            got = dotenv(src)
            return {"err": "", "settings": {str(k): v for k, v in got.items()}}
        except Exception as e:
            return {"err": type(e).__name__, "settings": {}}
        finally:
            if fh:
                fh.close()


def is_json(text):
    try:
        json.loads(text)
        return True
    except ValueError:
        return False


def many(jobs):
    """-> [what differs or None]"""
    d = tempfile.mkdtemp(prefix="venv_")
    path = os.path.join(d, "some.env")
    out = []
    try:
        for lines, says, ways, end in jobs:
            text = end.join(lines) + (end if end == "\r\n" else "")
            want = {"".join(s["name"]): "".join(s["value"]) for s in says["settings"]}
            bad = None
            for way in ways:
                got = read(text, way, path)
                if says["err"]:
                    # a text that is JSON as a whole is read as JSON, and refused in another way if it is not an object
                    if not got["err"] or (got["err"] != "DotEnvSyntaxError" and not is_json(text)):
                        bad = (way, text, "a syntax error", got)
                elif got["err"] or got["settings"] != want:
                    bad = (way, text, want, got)
            out.append(bad)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return out


def main(prop):
    check = Check(prop)
    check.assumptions = ["lines end with a line feed, with or without a carriage return; a text that is a JSON document as a whole is read as JSON (not covered)",
                         "the comment character is the default one"]
    lock = threading.Lock()

    def part(mode, first, maxlen, seed, count):
        r = tlc("Env", {"MODE": mode, "FIRST": first, "MAXLEN": maxlen, "SEED": seed, "COUNT": count}, workers=1)
        rng = random.Random("C16 %s %s %s" % (mode, first, seed))
        jobs = []
        for rec in r.records:
            lines = ["".join(l) for l in rec["lines"]]
            if mode == "lines":
                ways = ["text"] if rng.random() < 0.9 else [rng.choice(WAYS)]
            else:
                ways = WAYS if rng.random() < 0.3 else ["text", rng.choice(WAYS)]
            # a carriage return that ends no line is another line end to an open text file
            ways = [w for w in ways if w in ("text", "bytesio", "open binary file") or not any("\r" in l for l in lines)]
            jobs.append((lines, rec["says"], ways, "\r\n" if rng.random() < 0.1 else "\n"))
        results = [x for p in pool.map(many, chunks(jobs, 500)) for x in p]
        with lock:
            check.add_tlc(r)
            check.traces += sum(len(j[2]) for j in jobs)
            e = check.extra.setdefault(mode, {"texts": 0, "errors": 0, "settings": 0})
            for j in jobs:
                e["texts"] += 1
                e["errors"] += int(j[1]["err"])
                e["settings"] += len(j[1]["settings"])
            check.sample({"lines": jobs[-1][0], "says": jobs[-1][1]}, 6)
            for b in results:
                if b:
                    check.violation("[%s] %s %r: expected %s, got %s" % (mode, b[0], b[1], b[2], b[3]), {"way": b[0], "text": b[1], "want": b[2], "got": b[3]})

    deep = check.thorough
    with workers(6) as pool:
        parallel([lambda f=f: part("lines", f, 6 if deep else 5, SEED, 0) for f in range(0, 10)]
                 + [lambda k=k: part("drawnlines", 1, 1, SEED * 100 + k, 20000 if deep else 4000) for k in range(6 if deep else 2)]
                 + [lambda k=k: part("texts", 1, 1, SEED * 100 + k, 20000 if deep else 4000) for k in range(6 if deep else 2)], 6)
    return check.finish()
