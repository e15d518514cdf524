"""C11: what the library writes down for a table reads back as that table."""
import random
import threading

import adapter
import mysqlsql
from common import Check, SEED, parallel, workers
from planrun import Universe, chunks
from readrun import Judge, observe_all

#          focus        size  schemas (quick, thorough)
PLAN = [("kinds",       0,    (10 ** 6, 10 ** 6)),
        ("cols",        0,    (40, 10 ** 6)),
        ("indexes",     0,    (120, 10 ** 6)),
        ("indexcols",   0,    (60, 10 ** 6)),
        ("autoinc",     0,    (60, 10 ** 6)),
        ("onefk",       0,    (97, 10 ** 6)),
        ("graphs",      0,    (80, 10 ** 6)),
        ("fknames",     0,    (40, 10 ** 6)),
        ("charsets",    0,    (10 ** 6, 10 ** 6)),
        ("collations",  0,    (10 ** 6, 10 ** 6)),
        ("fkchar",      0,    (10 ** 6, 10 ** 6)),
        ("spell",       0,    (10 ** 6, 10 ** 6)),
        ("words",       0,    (10 ** 6, 10 ** 6)),
        ("any",         120,  (120, 120)),
        ("any",         1500, (0, 1500))]
SHOWN = [["ENGINE", "InnoDB"]]
# further options of a table: as spelled, and what they say
EXTRA = [("", []), ("", []),
         ("ROW_FORMAT=DYNAMIC COMMENT='It''s (a) Table; x=1, `y`'", [["ROW_FORMAT", "DYNAMIC"], ["COMMENT", "It's (a) Table; x=1, `y`"]]),
         ("COMMENT='CamelCase -- no /* comment */ # at all'", [["COMMENT", "CamelCase -- no /* comment */ # at all"]]),
         ("STATS_PERSISTENT=0 COMMENT='a\\\\b\\'c\"'", [["STATS_PERSISTENT", "0"], ["COMMENT", "a\\b'c\""]]),
         ("KEY_BLOCK_SIZE=8 COMMENT=''", [["KEY_BLOCK_SIZE", "8"], ["COMMENT", ""]])]


def with_option(text, extra):
    if not extra:
        return text
    return text[:-1] + " " + extra + ";" if text.endswith(";") else text + " " + extra


def tables_of(source, item, extra=""):
    if source == "decl":
        return adapter.declared_database([with_option(t, extra) for _, t in item["tables"]])
    if source == "api":
        return adapter.build_database(item["raw"])
    return adapter.live_database([(t["name"], with_option(t["text"], extra)) for t in item["show" + source]])


def one(job):
    """-> ("ok", [(way, observations of what was written and read again, text)]) or ("crash", why)"""
    source, item, seed, extra = job
    rng = random.Random(seed)
    try:
        with adapter.quiet():
            db = tables_of(source, item, EXTRA[extra][0])
            first = observe_all(db)
            # what the library has to say against a displayed BIT(1) or JSON DEFAULT NULL may be said again
            errors = sorted(str(e) for e in db.errors)
            if errors and source in ("decl", "api"):
                return "crash", "errors in a valid schema: %s" % errors[:3]
            texts = {"create": [], "nice": []}
            for t in db.tables.values():
                order = ["create", "nice", "create", "nice"]
                rng.shuffle(order)
                got = {"create": set(), "nice": set()}
                for way in order:
                    got[way].add(str(t.create()) if way == "create" else str(t.nice()))
                for way, ts in got.items():
                    if len(ts) != 1:
                        return "crash", "%s of %s differs from one call to the next: %s" % (way, t.name, sorted(ts))
                    texts[way].append(ts.pop())
            if observe_all(db) != first:
                return "crash", "writing the table down has changed it"
            out = [("itself", first, "")]
            for way in texts:
                text = "\n".join(texts[way])
                back = adapter.declared_database(text if rng.random() < 0.5 else texts[way])
                got = sorted(str(e) for e in back.errors)
                if set(got) - set(errors):
                    return "crash", "%s is read with errors %s: %s" % (way, got[:3], text)
                out.append((way, observe_all(back), text))
            return "ok", out
    except Exception as e:
        return "crash", "%s: %s" % (type(e).__name__, e)


def many(jobs):
    return [one(j) for j in jobs]


def run_focus(check, spec, pool, lock):
    focus, size, limits = spec
    limit = limits[1 if check.thorough else 0]
    if not limit:
        return
    u = Universe(focus, size)
    with lock:
        check.add_tlc(u.tlc)
    ids = list(range(u.n))
    rng = random.Random("C11 %s %s" % (focus, u.seed))
    rng.shuffle(ids)
    jobs = [(s, u.items[i], "%s %s %s" % (focus, i, s), 0 if s == "api" else rng.randrange(len(EXTRA))) for i in ids[:limit] for s in ("decl", "80", "57", "api")
            if s != "api" or not any(c["ty"] in ("BOOL", "BOOLEAN") for t in u.items[i]["raw"] for c in t["cols"])]     # a synonym of SQL only
    judge = Judge(check, u)
    results = [x for p in pool.map(many, chunks(jobs, 40)) for x in p]
    for (s, item, _, extra), (kind, got) in zip(jobs, results):
        if kind != "ok":
            with lock:
                check.violation("[%s %d from %s] %s" % (focus, item["id"], s, got[:300]), {"from": s, "declared": item["decl"], "what": got})
            continue
        for way, seen, text in got:
            src = "decl" if s == "api" else s
            opts = (SHOWN if s in ("80", "57") else []) + EXTRA[extra][1]
            again = []
            if way != "itself":
                try:
                    again = mysqlsql.statements(text)
                except mysqlsql.Bad as e:
                    with lock:
                        check.violation("[%s %d from %s] %s is not SQL: %s" % (focus, item["id"], s, way, e), {"text": text})
                    continue
                bad = [a for a in again if a["t"] != "create"]
                if bad:
                    with lock:
                        check.violation("[%s %d from %s] %s is not only CREATE TABLE" % (focus, item["id"], s, way), {"text": text})
                    continue
                for a in again:
                    a.pop("opts", None)
            judge.add(item["id"], src, opts, seen, again, {"from": s, "way": way, "declared": item["decl"], "text": text})

    def report(case, faults, details):
        with lock:
            check.violation("[%s %d from %s] %s: %s" % (focus, case["d"], details[0]["from"], details[0]["way"], "; ".join(faults)), {"details": details[:3], "read": [judge.tables[i - 1] for i in case["seen"]]})
    judge.judge(report)
    with lock:
        check.extra.setdefault("tables_sources_by_focus", {})[focus + str(size or "")] = len(jobs)
        check.sample({"declared": jobs[0][1]["decl"]}, 6)


def main(prop):
    check = Check(prop)
    check.assumptions = ["definitions are those of spec/Universe.tla; names without blanks; the width of integers is a matter of display"]
    lock = threading.Lock()
    with workers(5) as pool:
        parallel([lambda s=s: run_focus(check, s, pool, lock) for s in PLAN], 4)
    return check.finish()
