"""C08, C09: planned statements on rows, judged by spec/RowTrace.tla."""
import datetime
import decimal
import random
import re
import threading

import adapter
from common import Check, SEED, parallel, tlc, workers
from planrun import chunks

#               focus      deep    groups (None: all)  per TLC run
PLANS = {"C08": [("states", False, None, 3), ("types", False, None, 6), ("unique", False, 22, 4), ("draw", False, 900, 150)],
         "C09": [("texts", False, None, 12)]}
THOROUGH = {"C08": [("states", True, None, 5), ("types", False, None, 6), ("unique", False, None, 6), ("draw", False, 20000, 500)],
            "C09": [("texts", True, None, 40)]}


def driver_value(v, ty):
    """what the driver makes of a value in the result of a SELECT"""
    if v["n"]:
        return None
    s = "".join(v["c"])
    if ty == "int":
        return int(s)
    if ty == "dec":
        return decimal.Decimal(s)
    if ty == "dbl":
        return float(s)
    if ty == "blob":
        return s.encode("utf-8")
    if ty == "date":
        return datetime.date.fromisoformat(s)
    if ty == "datetime":
        return datetime.datetime.fromisoformat(s)
    if ty == "time":
        m = re.match(r"(-?)(\d+):(\d+):(\d+)$", s)
        d = datetime.timedelta(hours=int(m[2]), minutes=int(m[3]), seconds=int(m[4]))
        return -d if m[1] else d
    return s


def create(t, cols, shown):
    parts = ["`%s` %s" % (c["name"], c["sql"]) for c in cols] + ["PRIMARY KEY (`id`)"]
    parts += ["UNIQUE KEY `%s` (`%s`)" % (c["name"], c["name"]) for c in cols if c["uq"]]
    if shown:
        return "CREATE TABLE `%s` (\n  %s\n) ENGINE=InnoDB DEFAULT CHARSET=utf8mb4 COLLATE=utf8mb4_0900_ai_ci" % (t["name"], ",\n  ".join(parts))
    return "CREATE TABLE `%s` (%s);" % (t["name"], ", ".join(parts))


def insert(t, i, rng):
    """an INSERT in one of its spellings"""
    q = rng.choice(["`", "`", ""])
    sep = rng.choice([", ", ",", ",\n  ", " , "])
    out = rng.choice(["INSERT INTO ", "insert into ", "INSERT  INTO\n"]) + q + t["name"] + q + rng.choice([" ", "\n"]) + "("
    out += sep.join(q + c + q for c in i["cols"]) + ")" + rng.choice([" VALUES ", "\nVALUES\n", " values "])
    rows = ["(" + rng.choice([", ", ",", " ,\n"]).join("".join(x) for x in r) + ")" for r in i["lits"]]
    return out + rng.choice([",", ", ", ",\n"]).join(rows) + rng.choice([";", " ;", "\n;"])


def one(job):
    """plans with the real Plan command -> (kind, statements or text, declaration)"""
    case, seed = job
    rng = random.Random(seed)
    parts = []
    for t in case["tabs"]:
        parts.append(create(t, t["cols"], False))
        parts += [insert(t, i, rng) for i in t["ins"]]
    decl = rng.choice(["\n", "\n\n-- rows\n", " "]).join(parts) + "\n"
    conn = adapter.FakeConnection([(t["name"], create(t, t["lcols"], True)) for t in case["tabs"] if t["there"]],
                                  {t["name"]: [{c["name"]: driver_value(v, c["ty"]) for c, v in zip(t["lcols"], r)} for r in t["live"]] for t in case["tabs"] if t["there"]})
    try:
        with adapter.quiet() as (out, err):
            from mygrations.core.commands.plan import Plan
            got = Plan({"connection": conn, "sql_files": [decl]}).execute(print_results=False)
        if err.getvalue():
            return "errors", err.getvalue()[:500], decl
        if conn.changes:
            return "changes", conn.log, decl
        return "ok", list(got[0]), decl
    except Exception as e:
        return "crash", "%s: %s" % (type(e).__name__, e), decl


def many(jobs):
    return [one(j) for j in jobs]


def generate(check, lock, focus, deep, groups, per):
    def run(a, b):
        r = tlc("Rows", {"FOCUS": focus, "SEED": SEED, "FROM": a, "UPTO": b, "DEEP": "TRUE" if deep else "FALSE"}, workers=1)
        with lock:
            check.add_tlc(r)
        return r.records
    n = [r for r in run(1, 0) if "groups" in r][0]["groups"]
    n = min(n, groups) if focus == "draw" else n
    picks = list(range(1, n + 1))
    if groups is not None and focus != "draw" and groups < n:
        random.Random("%s %s" % (focus, SEED)).shuffle(picks)
        picks = sorted(picks[:groups])
        parts = [(p, p) for p in picks]
    else:
        parts = [(a, min(a + per - 1, n)) for a in range(1, n + 1, per)]
    return [x for rs in parallel([lambda p=p: run(*p) for p in parts], 4) for x in rs if "tabs" in x]


def judge(check, lock, focus, cases, results):
    work = [i for i, r in enumerate(results) if r[0] == "ok"]
    for i, r in enumerate(results):
        if r[0] != "ok":
            with lock:
                check.violation("[%s] %s: %s" % (focus, r[0], str(r[1])[:300]), {"declared": r[2], "case": cases[i]["tabs"]})
    parts = chunks(work, 250)

    def run(part):
        data = []
        for i in part:
            tabs = [{k: v for k, v in t.items()} for t in cases[i]["tabs"]]
            for t in tabs:
                t["ins"] = [{"cols": x["cols"], "rows": [[{"n": v["n"], "c": v["c"]} for v in r] for r in x["rows"]]} for x in t["ins"]]
            data.append({"tabs": tabs, "stmts": [list(s) if re.match(r"\s*(insert|update|delete|set)\b", s, re.I) or not re.match(r"\s*(create|alter|drop)\b", s, re.I) else list(s.split()[0]) for s in results[i][1]]})
        return tlc("RowTrace", {}, {"cases.json": data}, workers=1)
    for part, r in zip(parts, parallel([lambda p=p: run(p) for p in parts], 4)):
        with lock:
            check.add_tlc(r)
            if len(r.records) - 0 != len(part):
                raise AssertionError("TLC judged %d of %d cases" % (len(r.records), len(part)))
            for rec in r.records:
                i = part[rec["case"] - 1]
                check.traces += 1
                for f in rec["faults"]:
                    check.violation("[%s] %s" % (focus, f), {"declared": results[i][2], "live": {t["name"]: [["NULL" if v["n"] else "".join(v["c"]) for v in row] for row in t["live"]] for t in cases[i]["tabs"] if t["there"]},
                                                             "planned": results[i][1]}, key="%s | %s" % (focus, f))


def main(prop):
    check = Check(prop)
    check.assumptions = ["sql_mode without NO_BACKSLASH_ESCAPES; declared dates in the form the server displays; ids compared as texts of their type; a backslash in a declared text is doubled",
                         "no rounding or truncation of declared values by the server"]
    lock = threading.Lock()
    with workers(6) as pool:
        def run(p):
            focus, deep, groups, per = p
            cases = generate(check, lock, focus, deep, groups, per)
            jobs = [(c, "%s %s %d" % (focus, SEED, i)) for i, c in enumerate(cases)]
            results = [x for part in pool.map(many, chunks(jobs, 40)) for x in part]
            judge(check, lock, focus, cases, results)
            with lock:
                check.extra.setdefault("cases_by_focus", {})[focus] = len(cases)
                check.extra["statements"] = check.extra.get("statements", 0) + sum(len(r[1]) for r in results if r[0] == "ok")
                if results:
                    check.sample({"declared": results[len(results) // 2][2], "planned": results[len(results) // 2][1]}, 6)
        parallel([lambda p=p: run(p) for p in (THOROUGH if check.thorough else PLANS)[prop]], 3)
    return check.finish()
