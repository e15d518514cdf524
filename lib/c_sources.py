"""C17: a declaration says the same in any arrangement of sources (spec/Sources.tla)."""
import os
import random
import shutil
import tempfile
import threading

import adapter
from common import Check, SEED, parallel, tlc, workers
from planrun import chunks

TABLES = {("a", 1): ("CREATE TABLE `a` (`id` VARCHAR(20) NOT NULL, `one` INT, PRIMARY KEY (`id`));", ["id", "one"]),
          ("a", 2): ("CREATE TABLE `a` (\n  `id` VARCHAR(20) NOT NULL,\n  `two` INT,\n  PRIMARY KEY (`id`)\n);", ["id", "two"]),
          ("b", 1): ("create table b (\n  id INT UNSIGNED NOT NULL AUTO_INCREMENT, -- the id\n  a_id VARCHAR(20), PRIMARY KEY (id), KEY x (a_id)\n) ENGINE=InnoDB;", ["id", "a_id"]),
          ("c", 1): ("CREATE TABLE `c` (`id` INT NOT NULL, `b_id` INT UNSIGNED, PRIMARY KEY (`id`), KEY `b_id` (`b_id`));", ["id", "b_id"])}
OTHER = "CREATE TABLE `elsewhere` (`id` INT NOT NULL, PRIMARY KEY (`id`));\n"
DECOYS = ["notes.txt", "old.sql.bak", "schema.SQLITE", "README", "sql", "x.sql~", "a.sq", "deeper/inner.sql"]


def text_of(item, rng):
    if item["kind"] == "table":
        return TABLES[item["t"], item["which"]][0]
    if item["kind"] == "comment":
        return rng.choice(["-- nothing here", "/* CREATE TABLE `elsewhere` (`id` INT); */", "# INSERT INTO `elsewhere` (`id`) VALUES (1);", ""])
    return "INSERT INTO `%s` (`id`) VALUES %s;" % (item["t"], ", ".join("('%s')" % i for i in item["ids"])) if rng.random() < 0.7 else "\n".join("INSERT INTO %s (id) VALUES ('%s');" % (item["t"], i) for i in item["ids"])


def arrange(arr, d, rng):
    sources = []
    for n, s in enumerate(arr):
        texts = ["\n".join(text_of(i, rng) for i in part) + rng.choice(["", "\n", "\n\n"]) for part in s["parts"]]
        if s["kind"] == "text":
            sources.append(texts[0])
        elif s["kind"] == "file":
            path = os.path.join(d, rng.choice(["f%d.sql", "file %d", "f[%d].txt"]) % n)
            with open(path, "w") as fh:
                fh.write(texts[0])
            sources.append(path)
        else:
            sub = os.path.join(d, rng.choice(["dir%d", "d[%d]", "d %d*", "%d.sql"]) % n)
            os.mkdir(sub)
            names = rng.sample(["a.sql", "z.sql", "01 init.sql", "B.sql", "m.rows.sql", "[x].sql", "t-a.sql", "u.sql", "v.sql"], len(texts))
            for name, text in zip(names, texts):
                with open(os.path.join(sub, name), "w") as fh:
                    fh.write(text)
            for decoy in rng.sample(DECOYS, rng.randrange(4)):
                os.makedirs(os.path.dirname(os.path.join(sub, decoy)), exist_ok=True)
                with open(os.path.join(sub, decoy), "w") as fh:
                    fh.write(OTHER if rng.random() < 0.7 else "not SQL at all")
            sources.append(sub + rng.choice(["", "/"]))
    return sources


def one(job):
    """-> None or (what, sources, details)"""
    arr, says, seed = job
    rng = random.Random(seed)
    d = tempfile.mkdtemp(prefix="vsrc_")
    try:
        sources = arrange(arr, d, rng)
        given = sources[0] if len(sources) == 1 and rng.random() < 0.5 else sources
        with adapter.quiet():
            try:
                db = adapter.declared_database(given)
                errors = [str(e) for e in db.errors]
                seen = {n: (list(t.columns), bool(t.tracking_rows), sorted(t.rows or {})) for n, t in db.tables.items()}
            except Exception as e:
                return "crash %s: %s" % (type(e).__name__, e), repr(sources), None
        faults = says["faults"]
        if bool(errors) != bool(faults):
            return "errors %s, but there is %s" % (errors[:3], faults or "nothing wrong"), repr(sources), arr
        for f in faults:
            if not any(f.split()[-1] in e for e in errors):
                return "%s is not reported: %s" % (f, errors[:3]), repr(sources), arr
        if not faults:
            items = [i for s in arr for p in s["parts"] for i in p]
            want = {t["t"]: (TABLES[t["t"], items[t["which"] - 1]["which"]][1], t["tracked"], sorted(t["ids"])) for t in says["tables"]}
            if seen != want:
                return "read as %s instead of %s" % (seen, want), repr(sources), arr
        return None
    finally:
        shutil.rmtree(d, ignore_errors=True)


def many(jobs):
    return [one(j) for j in jobs]


def main(prop):
    check = Check(prop)
    check.assumptions = ["files are plain ASCII; two definitions of a table differ in a column"]
    lock = threading.Lock()

    def part(mode, first, items, seed, count, limit):
        r = tlc("Sources", {"MODE": mode, "FIRST": first, "ITEMS": items, "SEED": seed, "COUNT": count}, workers=2)
        rng = random.Random("C17 %s %s %s" % (mode, first, seed))
        records = r.records if len(r.records) <= limit else rng.sample(r.records, limit)
        jobs = [(x["arr"], x["says"], "C17 %s %s %s %d" % (mode, first, seed, n)) for n, x in enumerate(records)]
        out = [x for p in pool.map(many, chunks(jobs, 200)) for x in p]
        with lock:
            check.add_tlc(r)
            check.traces += len(jobs)
            e = check.extra.setdefault(mode, {"arrangements": 0, "with faults": 0})
            e["arrangements"] += len(jobs)
            e["with faults"] += sum(bool(j[1]["faults"]) for j in jobs)
            check.sample({"arrangement": jobs[-1][0], "says": jobs[-1][1]}, 4)
            for b in out:
                if b:
                    check.violation("[%s] %s" % (mode, b[0]), {"sources": b[1], "arrangement": b[2]})
    deep = check.thorough
    with workers(6) as pool:
        parallel([lambda f=f: part("all", f, 4 if deep else 3, SEED, 0, 10 ** 6 if deep else 3000) for f in range(1, 11)]
                 + [lambda k=k: part("drawn", 1, 1, SEED * 50 + k, 10000 if deep else 3000, 10 ** 6) for k in range(6 if deep else 2)], 4)
    return check.finish()
