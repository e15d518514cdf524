"""C18: no part of a source is silently ignored (spec/Grammar.tla, Damage.tla, SourceTrace.tla)."""
import json
import random
import threading

import adapter
from common import Check, SEED, parallel, tlc, workers
from planrun import chunks

BASES = 4


def observe(text):
    """-> {"err": text} or what was read"""
    with adapter.quiet():
        try:
            db = adapter.declared_database([text])
            errors = [str(e) for e in db.errors]
            if errors:
                return {"err": errors[0]}
            tables, rows, dump = [], [], []
            for t in db.tables.values():
                o = adapter.observe_table(t)
                cols = []
                for raw, c in zip(t.columns.values(), o["cols"]):
                    d = [c["def"]["k"], str(raw.default) if c["def"]["k"] == "lit" else ""]
                    cols.append({"name": c["name"], "ty": c["ty"], "len": str(raw.length).split(",") if raw.length not in (None, "") else [], "nul": c["nul"], "un": c["un"],
                                 "ai": c["ai"], "def": d, "vals": c["vals"], "cs": c["cs"], "co": c["co"], "pk": False})
                    dump += [c["name"], c["ty"], str(raw.length or ""), "NOT" if c["nul"] == "NOT NULL" else "", "UNSIGNED" if c["un"] else "",
                             "AUTO_INCREMENT" if c["ai"] else "", "CURRENT_TIMESTAMP" if d[0] == "now" else d[1], c["cs"], c["co"]] + c["vals"]
                for x in o["idx"]:
                    dump += [x["name"], x["kind"]] + x["cols"]
                for f in o["fks"]:
                    dump += [f["name"], f["col"], f["rt"], f["rc"], f["del"], f["upd"]]
                for opt in t.options:
                    dump += [str(opt.name), str(opt.value)]
                dump.append(t.name)
                tables.append({"name": o["name"], "cols": cols, "idx": o["idx"], "fks": o["fks"]})
                for i, row in (t.rows or {}).items():
                    rows.append({"t": t.name, "id": str(i), "vals": [[k, "null" if v is None else "v", "" if v is None else str(v)] for k, v in row.items()]})
                    dump += [t.name] + [str(x) for k, v in row.items() for x in (k, v)]
            return {"err": "", "tables": tables, "rows": rows, "dump": [x for x in dump if x]}
        except Exception as e:
            return {"err": "", "crash": "%s: %s" % (type(e).__name__, e)}


def many(texts):
    return [observe(t) for t in texts]


def long_text(source):
    """spells the runs of pieces of spec/Long.tla out"""
    out, tables, rows = [], 0, 0
    for run in source:
        k, n = run["kind"], run["n"]
        if k == "create":
            for _ in range(n):
                tables += 1
                out.append("CREATE TABLE `t%d` (`id` int NOT NULL AUTO_INCREMENT, `a` varchar(8), PRIMARY KEY (`id`));" % tables)
        elif k == "rows":
            out.append("INSERT INTO `t1` (`id`, `a`) VALUES " + ", ".join("(%d, 'r')" % (rows + i) for i in range(1, n + 1)) + ";")
            rows += n
        elif k == "insert":
            out += ["INSERT INTO t1 (id,a) VALUES (%d,'i');" % (rows + i) for i in range(1, n + 1)]
            rows += n
        else:
            out += [{"dashes": "-- %d", "hash": "# %d", "block": "/* %d */"}[k] % i for i in range(n)]
    return "\n".join(out)


def long_read(source):
    with adapter.quiet():
        try:
            db = adapter.declared_database([long_text(source)])
            if db.errors:
                return {"err": 1}
            return {"err": 0, "tables": len(db.tables), "rows": sum(len(t.rows or {}) for t in db.tables.values())}
        except Exception as e:
            return {"crash": "%s: %s" % (type(e).__name__, e)}


def long_many(sources):
    return [long_read(s) for s in sources]


def main(prop):
    check = Check(prop)
    check.assumptions = ["ASCII texts without escape sequences other than quotes; names are spelled in one case"]
    lock = threading.Lock()
    deep = check.thorough
    seen = set()

    def part(mode, base, seed, count, limit):
        r = tlc("Damage", {"MODE": mode, "BASE": base, "SEED": seed, "COUNT": count}, workers=1)
        rng = random.Random("C18 %s %s %s" % (mode, base, seed))
        records = r.records
        if len(records) > limit:
            records = [x for x in records if x["how"]["op"] == "none"] + rng.sample(records, limit)
        with lock:
            check.add_tlc(r)
            todo = {}
            for x in records:
                if x["text"] not in seen:
                    todo[x["text"]] = x["how"]
                    seen.add(x["text"])
        texts = list(todo)
        got = [o for p in pool.map(many, chunks(texts, 200)) for o in p]
        silent = [(t, o) for t, o in zip(texts, got) if not o["err"] and "crash" not in o]
        verdicts = {}
        for chunk in chunks(silent, 400):
            j = tlc("SourceTrace", None, {"cases.json": [dict(o, text=t) for t, o in chunk]}, workers=1)
            with lock:
                check.add_tlc(j)
            if len(j.records) != len(chunk):
                raise AssertionError("TLC judged %d of %d texts" % (len(j.records), len(chunk)))
            for rec in j.records:
                verdicts[chunk[rec["case"] - 1][0]] = rec
        with lock:
            check.traces += len(texts)
            e = check.extra.setdefault(mode, {"texts": 0, "reported": 0, "read, and SQL": 0, "read, though not SQL": 0})
            for t, o in zip(texts, got):
                e["texts"] += 1
                how = todo[t]
                if "crash" in o:
                    check.violation("[%s] crash: %s" % (mode, o["crash"][:100]), {"text": t, "damage": how})
                elif o["err"]:
                    e["reported"] += 1
                    if how["op"] == "none":
                        check.violation("[%s] an intact source is reported: %s" % (mode, o["err"][:100]), {"text": t})
                else:
                    v = verdicts[t]
                    e["read, and SQL" if v["clean"] else "read, though not SQL"] += 1
                    if how["op"] == "none" and not v["clean"]:
                        raise AssertionError("the grammar refuses an intact source: %s" % t)
                    if v["faults"]:
                        check.violation("[%s %s] %s" % (mode, how["op"], "; ".join(sorted(v["faults"])[:3])), {"text": t, "damage": how, "read": {k: o[k] for k in ("tables", "rows")}})
            check.sample({"text": texts[-1], "damage": todo[texts[-1]]}, 4)

    def long_sources():
        r = tlc("Long", {"SIZES": "1, 40, 2500, 10020, 30000" if deep else "3, 10020"}, workers=1)
        recs = {json.dumps(x["source"]): x for x in r.records}.values()
        got = [o for p in pool.map(long_many, chunks([x["source"] for x in recs], 1)) for o in p]
        with lock:
            check.add_tlc(r)
            check.traces += len(got)
            e = check.extra.setdefault("long", {"sources": 0, "reported": 0})
            for x, o in zip(recs, got):
                e["sources"] += 1
                if "crash" in o:
                    check.violation("[long] crash: %s" % o["crash"][:100], {"source": x["source"]})
                elif o["err"]:
                    e["reported"] += 1
                    if max(run["n"] for run in x["source"]) < 1000:
                        check.violation("[long] an intact source is reported", {"source": x["source"]})
                elif (o["tables"], o["rows"]) != (x["tables"], x["rows"]):
                    check.violation("[long] %d tables and %d rows of %d and %d are read" % (o["tables"], o["rows"], x["tables"], x["rows"]), {"source": x["source"]})

    big = 10 ** 9
    jobs = [long_sources]
    for b in range(1, BASES + 1):
        jobs.append(lambda b=b: part("tokens", b, SEED, 0, big if deep else 1800))
        jobs.append(lambda b=b: part("chars", b, SEED, 0, big if deep else 1000))
        jobs.append(lambda b=b: part("cuts", b, SEED, 0, big if deep else 1000))
        jobs.append(lambda b=b: part("drawn", b, SEED * 70 + b, 12000 if deep else 500, big))
    with workers(6) as pool:
        parallel(jobs, 4)
    return check.finish()
