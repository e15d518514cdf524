"""C14 (commands and the server) and C19 (reading the live database): recorded sessions judged by spec/Session.tla."""
import datetime
import decimal
import itertools
import json
import random
import threading

import adapter
import mysqlsql
from common import Check, SEED, parallel, tlc, workers
from planrun import Universe, chunks, pick_pairs
from readrun import Judge, observe_all


# ---- a server that writes down what reaches it, and refuses the n-th request ------------------
class Session(adapter.FakeConnection):
    def __init__(self, tables, rows=None, refuse=0, how=0):
        super().__init__(tables, rows)
        self.refuse, self.how, self.count, self.entries = refuse, how, 0, []

    def note(self, q, t="", text=""):
        self.count += 1
        ok = self.count != self.refuse
        self.entries.append((q, t, text, ok))
        if not ok:
            from pymysql import err
            kinds = [err.OperationalError, err.IntegrityError, err.InternalError, err.ProgrammingError, err.InterfaceError, err.DataError]
            raise kinds[self.how % len(kinds)](1213, "refused")

    def answer(self, query):
        q = query.strip()
        u = q.upper()
        if u.rstrip(";").strip() in ("SHOW TABLES", "SHOW FULL TABLES"):
            self.note("tables")
        elif u.startswith("SHOW CREATE TABLE "):
            self.note("create", self.name_of(q, "SHOW CREATE TABLE "))
        elif u.startswith("SELECT * FROM "):
            self.note("rows", self.name_of(q, "SELECT * FROM "))
        elif u.startswith("SELECT ") or u.startswith("SHOW ") or u.rstrip(";").strip() in ("COMMIT", "START TRANSACTION", "BEGIN", "ROLLBACK"):
            self.note("commit" if u.startswith("COMMIT") else "rollback" if u.startswith("ROLLBACK") else "other", "", q)
            return []
        else:
            self.note("change", "", q)
            return []
        return super().answer(query)

    def commit(self):
        self.note("commit")

    def rollback(self):
        self.note("rollback")


UNREADABLE = {
    "generated": ("  `c` int GENERATED ALWAYS AS ((`id` + 1)) STORED,\n", "", ""),
    "point": ("  `c` point NOT NULL,\n", "", ""),
    "column comment": ("  `c` int DEFAULT NULL COMMENT 'x, y',\n", "", ""),
    "on update": ("  `c` timestamp NULL DEFAULT NULL ON UPDATE CURRENT_TIMESTAMP,\n", "", ""),
    "on update now": ("  `c` timestamp NOT NULL DEFAULT CURRENT_TIMESTAMP ON UPDATE CURRENT_TIMESTAMP,\n", "", ""),
    "expression": ("  `c` int DEFAULT (1 + 1),\n", "", ""),
    "zerofill": ("  `c` int(5) unsigned zerofill DEFAULT NULL,\n", "", ""),
    "blank": ("  `c d` int DEFAULT NULL,\n", "", ""),
    "fulltext": ("", ",\n  FULLTEXT KEY `f` (`a`)", ""),
    "spatial": ("", ",\n  SPATIAL KEY `f` (`a`)", ""),
    "descending": ("", ",\n  KEY `k` (`a` DESC)", ""),
    "btree": ("", ",\n  KEY `k` (`a`) USING BTREE", ""),
    "key comment": ("", ",\n  KEY `k` (`a`) COMMENT 'x'", ""),
    "functional key": ("", ",\n  KEY `k` ((lower(`a`)))", ""),
    "check": ("", ",\n  CONSTRAINT `c` CHECK ((`id` > 0))", ""),
    "wide key": ("", ",\n  CONSTRAINT `c` FOREIGN KEY (`id`, `a`) REFERENCES `t2` (`id`, `b`)", ""),
    "union": ("", "", " UNION=(`a`,`b`)"),
}
WHOLE = {
    "temporary": lambda t: t.replace("CREATE TABLE", "CREATE TEMPORARY TABLE"),
    "garbage": lambda t: "hello",
    "view": lambda t: "CREATE ALGORITHM=UNDEFINED DEFINER=`r`@`%` SQL SECURITY DEFINER VIEW `zz` AS select 1 AS `x`",
    "cut": lambda t: t[:60],
    "cut in a name": lambda t: t[:t.index("`a`") + 2],
    "twice": lambda t: t + ";\n" + t + ";",
    "trailing": lambda t: t + " foo(bar",
}


def unreadable(kind):
    a, b, c = UNREADABLE.get(kind, ("", "", ""))
    text = "CREATE TABLE `zz` (\n  `id` int NOT NULL,\n  `a` varchar(20) DEFAULT NULL,\n%s  PRIMARY KEY (`id`)%s\n) ENGINE=InnoDB DEFAULT CHARSET=utf8mb4 COLLATE=utf8mb4_0900_ai_ci%s" % (a, b, c)
    return WHOLE[kind](text) if kind in WHOLE else text


BADS = sorted(UNREADABLE) + sorted(WHOLE)
BADFILES = ["CREATE TABLE `zz` (`id` INT NOT NULL", "hello world;", "CREATE TABLE `zz` (`id` INT NOT NULL, PRIMARY KEY (`id`));CREATE TABLE `zz` (`id` INT NOT NULL, PRIMARY KEY (`id`));",
            "INSERT INTO `zz` (`id`) VALUES (1);", "CREATE TABLE `zz` (`id` INT NOT NULL, `x` INT, PRIMARY KEY (`id`), KEY `x` (`x`), CONSTRAINT `zf` FOREIGN KEY (`x`) REFERENCES `nowhere` (`id`));",
            "CREATE TABLE `zz` (`id` INT NOT NULL, PRIMARY KEY (`id`));\nINSERT INTO `zz` (`id`) VALUES (1), (1);", "CREATE TABLE `zz` (`id` INT NOT NULL DEFAULT 'x', PRIMARY KEY (`id`));"]


# ---- C14 ------------------------------------------------------------------------------------
def scenario(item_a, item_b, style, rng, n):
    """-> dict(live, rows, files, tables, asked, bad)"""
    live = [(t["name"], t["text"]) for t in item_a["show" + style]] if item_a else []
    decl = item_b["tables"] if item_b else []
    bad = ["", "", "", "files", "live"][n % 5]
    if bad == "live":
        live.insert(rng.randrange(len(live) + 1), ("zz", unreadable(rng.choice(BADS))))
    cols = {t["name"]: [c["name"] for c in t["cols"]] for t in (item_a["raw"] if item_a else [])}
    files, asked, rows = [], [], {}
    for t in item_b["raw"] if item_b else []:
        names = [c["name"] for c in t["cols"]]
        if "id" in names and rng.random() < 0.5:
            ids = rng.sample([1, 2, 3], rng.randrange(1, 4))
            files.append("INSERT INTO `%s` (`id`) VALUES %s;" % (t["name"], ", ".join("(%d)" % i for i in ids)))
            asked.append(t["name"])
            if rng.random() < 0.5:
                rows[t["name"]] = [dict([(c, None) for c in cols.get(t["name"], [])], id=i) for i in ids]
    for name, cs in cols.items():
        if "id" in cs and name not in rows:
            rows[name] = [dict([(c, None) for c in cs], id=i) for i in rng.sample([1, 2, 3, 4], rng.randrange(0, 3))]
    files = [text for _, text in decl] + files
    if rng.random() < 0.5:
        rng.shuffle(files)
    if bad == "files":
        # a broken statement may only be the last one: what stands behind it may belong to it
        files.append(rng.choice(BADFILES))
    if not files:
        files = ["-- nothing declared\n"]
    if rng.random() < 0.3:
        files = ["\n".join(files)]
    return {"live": live, "rows": {k: v for k, v in rows.items() if k in dict(live)}, "files": files, "asked": asked, "bad": bad}


CHANGES = ("ALTER ", "CREATE ", "DROP ", "INSERT ", "UPDATE ", "DELETE ", "SET ", "RENAME ", "REPLACE ")


def session(sc, cmd, route, refuse, how, plan):
    """-> (entries, outcome)"""
    from mygrations.core import commands
    from mygrations.core.commands import apply, check, plan as plan_module
    conn = Session(sc["live"], sc["rows"], refuse, how)
    options = {"connection": conn, "sql_files": list(sc["files"])}
    if route != 1:
        options.update(config="mygrate.conf", version=False, force=False, command=cmd)
    module = {"plan": plan_module, "apply": apply, "check": check}[cmd]
    raised, success, got, error = False, False, None, ""
    with adapter.quiet() as (out, err):
        try:
            if route == 0:
                got, success = module.execute(options, print_results=False)
            elif route == 1:
                got, success = getattr(module, cmd.capitalize())(options).execute(print_results=False)
            elif route == 2:
                got, success = commands.execute(cmd, options)
            else:
                from mygrations.mygrate import mygrate
                try:
                    mygrate(cmd, options).execute()
                    success = True
                except SystemExit as e:
                    success = not e.code
        except adapter.TooSlow:
            raise
        except Exception as e:
            raised, error = True, "%s: %s" % (type(e).__name__, e)
    shown = out.getvalue()
    if got is None and not raised and cmd != "check":
        # only what is printed is there to go by
        if plan and "\n".join(plan) in shown:
            got = plan
        else:
            got = [line for line in shown.split("\n") if line.upper().startswith(CHANGES)]
    if cmd == "check":
        errors = len(got) if got is not None else int(not success and bool(shown.strip()))
        got = []
    else:
        errors = int(bool(err.getvalue().strip()))
    return conn.entries, {"raised": raised, "success": bool(success), "list": [str(x) for x in got or []], "errors": errors, "error": error}


def kind_of(text):
    st = mysqlsql.parse(text)
    if st["t"] == "fkc":
        return {"k": "on" if st["on"] else "off", "t": ""}
    return {"k": "row" if st["t"] == "row" else "schema", "t": st.get("name", "")}


def sessions(job):
    """all sessions of one scenario -> ("ok", cases) or ("crash", why)"""
    sc, seed, most = job
    rng = random.Random(seed)
    try:
        entries, out = session(sc, "plan", 0, 0, 0, None)
        plan = out["list"]
        ids = {}
        for p in plan:
            ids.setdefault(p, len(ids) + 1)
        base = {"tables": [n for n, _ in sc["live"]], "asked": sc["asked"], "plan": [ids[p] for p in plan], "kinds": [kind_of(p) for p in plan], "bad": sc["bad"]}
        cases = []

        def add(cmd, route, refuse):
            entries, out = session(sc, cmd, route, refuse, rng.randrange(6), plan)
            log = [{"q": q, "t": t, "id": ids.get(text, 0), "ok": ok} for q, t, text, ok in entries]
            cases.append({"sc": dict(base, cmd=cmd), "log": log, "rows": [],
                          "out": dict(out, list=[ids.get(x, 0) for x in out["list"]]), "what": [[q, t or text, ok] for q, t, text, ok in entries], "error": out["error"]})
            return len(entries)
        reads = add("plan", rng.randrange(4), 0)
        add("check", rng.randrange(4), 0)
        add("check", rng.choice([0, 1, 3]), 0)
        total = 0
        for route in rng.sample(range(4), 2):
            total = add("apply", route, 0)
        at = list(range(1, total + 1))
        if len(at) > most:
            # every end of something, and some in between
            keep = {1, reads, reads + 1, reads + 2, total - 2, total - 1, total} & set(at)
            at = sorted(keep | set(rng.sample(at, most)))
        for k in at:
            if k <= reads and rng.random() < 0.5:
                add("plan", rng.randrange(4), k)
            add("apply", rng.randrange(4), k)
        return "ok", cases
    except Exception as e:
        return "crash", "%s: %s" % (type(e).__name__, e)


def many(jobs):
    return [sessions(j) for j in jobs]


def judge(check, cases, per=1500):
    """-> faults per case"""
    parts = chunks(cases, per)
    keys = ("sc", "log", "out", "rows")
    out = []
    for part, r in zip(parts, parallel([lambda p=p: tlc("SessionTrace", {}, {"cases.json": [{k: c[k] for k in keys} for c in p]}, workers=1) for p in parts], 4)):
        check.add_tlc(r)
        if len(r.records) != len(part):
            raise AssertionError("TLC judged %d of %d sessions" % (len(r.records), len(part)))
        faults = {rec["case"]: rec["faults"] for rec in r.records}
        out += [faults[i + 1] for i in range(len(part))]
    return out


#       focus    size quick thorough
C14 = [("cols",    0,   80,   600),
       ("onefk",   0,  150,  1500),
       ("graphs",  0,  100,  1200),
       ("kinds",   0,   60,   600),
       ("any",    40,  200,  2500)]


def c14_focus(check, spec, pool, lock):
    focus, size, quick, thorough = spec
    u = Universe(focus, size)
    rng = random.Random("C14 %s %s" % (focus, u.seed))
    pairs, _ = pick_pairs(u, rng, thorough if check.thorough else quick)
    # a database that is up to date, and one with nothing in it
    pairs = list(pairs) + [(i, i) for i in rng.sample(range(1, u.n + 1), min(u.n, max(6, len(pairs) // 8)))] + [(0, rng.randrange(1, u.n + 1)) for _ in range(5)]
    jobs = []
    for n, (i, j) in enumerate(pairs):
        sc = scenario(u.items[i - 1] if i else None, u.items[j - 1], "80" if rng.random() < 0.6 else "57", rng, n)
        jobs.append((sc, "C14 %s %d" % (focus, n), 60 if check.thorough else 8))
    results = [x for p in pool.map(many, chunks(jobs, 10)) for x in p]
    cases, where = [], []
    for (sc, _, _), (kind, got) in zip(jobs, results):
        if kind != "ok":
            with lock:
                check.violation("[%s] %s" % (focus, got), sc)
            continue
        cases += got
        where += [sc] * len(got)
    for sc, case, faults in zip(where, cases, judge(check, cases)):
        with lock:
            check.traces += 1
            if faults:
                check.violation("[%s %s] %s" % (focus, case["sc"]["cmd"], "; ".join(faults)), {"scenario": sc, "session": case["what"], "outcome": case["out"], "error": case["error"]})
    with lock:
        check.add_tlc(u.tlc)
        e = check.extra.setdefault("sessions", {})
        for c in cases:
            k = "%s%s%s" % (c["sc"]["cmd"], " refused" if any(not x["ok"] for x in c["log"]) else "", " " + c["sc"]["bad"] if c["sc"]["bad"] else "")
            e[k] = e.get(k, 0) + 1
        if cases:
            check.sample({"files": where[-1]["files"], "live": where[-1]["live"], "session": cases[-1]["what"], "outcome": cases[-1]["out"]}, 3)


def model(check, lock):
    r = tlc("SessionModel", {"TABLES": 3 if check.thorough else 2, "PLAN": 5 if check.thorough else 3}, workers=2)
    with lock:
        check.add_tlc(r)
        check.extra["model_states"] = r.distinct


def main_c14(prop):
    check = Check(prop)
    check.assumptions = ["the server is a stand-in that records every request and refuses one of them; a refused statement raises one of pymysql's errors",
                         "the option -f (force) is not used"]
    lock = threading.Lock()
    with workers(5) as pool:
        parallel([lambda: model(check, lock)] + [lambda s=s: c14_focus(check, s, pool, lock) for s in C14], 4)
    return check.finish()


# ---- C19 ------------------------------------------------------------------------------------
VALUES = [None, 0, 1, -7, "", "0", "it's", "None", "a\\b", "日本", 1.5, decimal.Decimal("1.50"), datetime.datetime(2020, 1, 2, 3, 4, 5), datetime.date(2020, 1, 2),
          datetime.timedelta(hours=30), b"\x00ab", b""]
IDS = [[1, 2, 10, -3, 700], ["b", "a", "x y", "B", "10"]]
SCHEMAS = [("kinds", 0), ("cols", 0), ("indexes", 0), ("indexcols", 0), ("autoinc", 0), ("onefk", 0), ("graphs", 0), ("fknames", 0), ("charsets", 0), ("collations", 0), ("fkchar", 0), ("words", 0), ("any", 150)]
TAILS = ["", "", " AUTO_INCREMENT=17", " ROW_FORMAT=DYNAMIC COMMENT='Ünï, `x` (a) '' b; c'", " STATS_PERSISTENT=1"]
SAID = [[], [], [], [["ROW_FORMAT", "DYNAMIC"], ["COMMENT", "Ünï, `x` (a) ' b; c"]], [["STATS_PERSISTENT", "1"]]]


def value_index(v):
    for n, w in enumerate(VALUES):
        if type(v) is type(w) and v == w:
            return n
    # the same value in another shape is the same value
    for n, w in enumerate(VALUES):
        if v is not None and w is not None and str(v) == str(w):
            return n
    return -1


def read_one(job):
    """reads a live database -> (kind, observation or why, case for Session)"""
    tables, cols, rows, asked, bad, way = job
    conn = Session(tables, {n: [dict((c, VALUES[k] if c != "id" else i) for c, k in r) for i, r in rs] for n, rs in rows.items()})
    from mygrations.drivers.pymysql.pymysql import PyMySQL
    from mygrations.formats.mysql.db_reader.database import Database
    raised, errors, seen, out_rows, why = False, [], [], [], ""
    with adapter.quiet():
        try:
            db = Database(PyMySQL(connection=conn))
            errors = [str(e) for e in db.errors]
            if not bad:
                for n in asked:
                    db.read_rows(n if way else db.tables[n])
                seen = observe_all(db)
                for n in asked:
                    t = db.tables[n]
                    got = []
                    for key, r in (t.rows or {}).items():
                        if str(r["id"]) != key or list(r) != [c for c, _ in rows[n][0][1]] if rows[n] else False:
                            got.append({"id": "?" + key, "vals": []})
                        else:
                            got.append({"id": key, "vals": [value_index(v) for c, v in r.items() if c != "id"]})
                    out_rows.append({"t": n, "given": [{"id": str(i), "vals": [value_index(VALUES[k]) for c, k in r if c != "id"]} for i, r in rows[n]], "seen": got, "tracking": bool(t.tracking_rows)})
                for n in db.tables:
                    if n not in asked and db.tables[n].tracking_rows:
                        why = "a table that was not asked for counts as read: " + n
                        raised = True
        except Exception as e:
            raised, why = True, "%s: %s" % (type(e).__name__, e)
    sc = {"cmd": "read", "tables": [n for n, _ in tables], "asked": [] if bad else asked, "plan": [], "kinds": [], "bad": bad}
    return {"sc": sc, "log": [{"q": q, "t": t, "id": 0, "ok": ok} for q, t, _, ok in conn.entries], "rows": out_rows,
            "out": {"raised": raised, "success": True, "list": [], "errors": len(errors)}, "seen": seen, "why": why, "messages": errors[:3], "what": [[q, t or x] for q, t, x, _ in conn.entries]}


def many_reads(jobs):
    return [read_one(j) for j in jobs]


def c19_focus(check, focus, size, pool, lock):
    u = Universe(focus, size)
    rng = random.Random("C19 %s %s" % (focus, u.seed))
    limit = 10 ** 6 if check.thorough else 120
    ids = rng.sample(range(u.n), min(u.n, limit))
    jobs, about = [], []
    for i in ids:
        item = u.items[i]
        for style in ("80", "57"):
            tail = rng.randrange(len(TAILS))
            tables = [(t["name"], t["text"] + TAILS[tail]) for t in item["show" + style]]
            rng.shuffle(tables)
            cols = {t["name"]: [c["name"] for c in t["cols"]] for t in item["raw"]}
            withid = [n for n, _ in tables if "id" in cols[n]]
            asked = rng.sample(withid, rng.randrange(len(withid) + 1))
            rows = {}
            for n in asked:
                some = rng.sample(rng.choice(IDS), rng.randrange(5))
                rows[n] = [(k, [(c, rng.randrange(len(VALUES))) for c in cols[n]]) for k in some]
            jobs.append((tables, cols, rows, asked, "", rng.random() < 0.5))
            about.append((i, style, tail))
    results = [x for p in pool.map(many_reads, chunks(jobs, 30)) for x in p]
    jd = Judge(check, u)
    good = []
    for job, (i, style, tail), r in zip(jobs, about, results):
        if not r["out"]["raised"] and not any(r["messages"]):
            jd.add(u.items[i]["id"], style, [["ENGINE", "InnoDB"]] + SAID[tail], r["seen"], [], job[0])
        elif r["messages"]:
            # what the library has to say against a displayed BIT(1) or JSON DEFAULT NULL is no fault of reading
            jd.add(u.items[i]["id"], style, [["ENGINE", "InnoDB"]] + SAID[tail], r["seen"], [], job[0])
        good.append((job, r))

    def report(case, faults, details):
        with lock:
            check.violation("[%s %d from %s] %s" % (focus, case["d"], case["from"], "; ".join(faults)), {"tables": details[:2], "read": [jd.tables[k - 1] for k in case["seen"]]})
    jd.judge(report)
    for (job, r), faults in zip(good, judge(check, [r for _, r in good])):
        if faults:
            with lock:
                check.violation("[%s] %s %s" % (focus, "; ".join(faults), r["why"]), {"tables": job[0], "rows": job[2], "asked": job[3], "session": r["what"], "read": r["rows"]})
    with lock:
        check.add_tlc(u.tlc)
        check.extra.setdefault("reads_by_focus", {})[focus] = len(jobs)
        check.sample({"tables": jobs[0][0], "asked": jobs[0][3], "session": results[0]["what"]}, 4)


def c19_rows(check, pool, lock):
    """every order of up to three (thorough: four) ids, with drawn values; text and number ids"""
    rng = random.Random("C19 rows %s" % SEED)
    jobs = []
    for way, names in enumerate(IDS):
        for n in range(5 if check.thorough else 4):
            for order in itertools.permutations(names, n):
                text = "CREATE TABLE `t` (\n  `v` varchar(20) DEFAULT NULL,\n  `id` %s NOT NULL,\n  `w` varchar(20) DEFAULT NULL,\n  PRIMARY KEY (`id`)\n) ENGINE=InnoDB DEFAULT CHARSET=utf8mb4" % ("int" if way == 0 else "varchar(20)")
                rows = {"t": [(k, [("v", rng.randrange(len(VALUES))), ("id", 0), ("w", rng.randrange(len(VALUES)))]) for k in order]}
                other = ("o", "CREATE TABLE `o` (\n  `id` int NOT NULL\n) ENGINE=InnoDB DEFAULT CHARSET=utf8mb4")
                jobs.append(([("t", text), other] if rng.random() < 0.5 else [other, ("t", text)], {}, rows, ["t"], "", rng.random() < 0.5))
    # definitions that cannot be read, alone, before and behind others
    fine = [("a", "CREATE TABLE `a` (\n  `id` int NOT NULL,\n  PRIMARY KEY (`id`)\n) ENGINE=InnoDB DEFAULT CHARSET=utf8mb4"), ("z", "CREATE TABLE `z` (\n  `id` int NOT NULL,\n  PRIMARY KEY (`id`)\n) ENGINE=InnoDB DEFAULT CHARSET=utf8mb4")]
    for kind in BADS:
        for before, after in itertools.product(range(2), range(2)):
            jobs.append((fine[:before] + [("zz", unreadable(kind))] + fine[1:1 + after], {}, {}, [], "live", False))
    results = [x for p in pool.map(many_reads, chunks(jobs, 60)) for x in p]
    for job, r, faults in zip(jobs, results, judge(check, results)):
        with lock:
            check.traces += 1
            if faults:
                check.violation("[rows] %s %s" % ("; ".join(faults), r["why"]), {"tables": job[0], "rows": repr(job[2]), "session": r["what"], "read": r["rows"], "errors": r["messages"]})
    # and no plan is made against such a database
    plans = []
    for kind in BADS:
        for files in (["CREATE TABLE `zz` (`id` INT NOT NULL, `a` VARCHAR(20), PRIMARY KEY (`id`));"], ["CREATE TABLE `n` (`id` INT NOT NULL, PRIMARY KEY (`id`));\nINSERT INTO `n` (`id`) VALUES (1);"]):
            for pos in range(2):
                plans.append(({"live": fine[:pos] + [("zz", unreadable(kind))] + fine[1:], "rows": {}, "files": files, "asked": ["n"] if "`n`" in files[0] else [], "bad": "live"}, "C19 %s %d" % (kind, pos), 6))
    cases, where = [], []
    for (sc, _, _), (kind, got) in zip(plans, [x for p in pool.map(many, chunks(plans, 20)) for x in p]):
        if kind != "ok":
            with lock:
                check.violation("[unreadable] " + got, sc)
            continue
        got = [c for c in got if c["sc"]["cmd"] != "check"]
        cases += got
        where += [sc] * len(got)
    for sc, case, faults in zip(where, cases, judge(check, cases)):
        with lock:
            check.traces += 1
            if faults:
                check.violation("[unreadable %s] %s" % (case["sc"]["cmd"], "; ".join(faults)), {"scenario": sc, "session": case["what"], "outcome": case["out"]})
    with lock:
        check.extra["row_orders"], check.extra["unreadable_kinds"], check.extra["sessions_against_unreadable"] = len(jobs), len(BADS), len(cases)


def main_c19(prop):
    check = Check(prop)
    check.assumptions = ["a live database displays its tables as spec/Universe.tla says (MySQL 5.7 and 8.0); names without blanks"]
    lock = threading.Lock()
    with workers(5) as pool:
        parallel([lambda: c19_rows(check, pool, lock)] + [lambda f=f, s=s: c19_focus(check, f, s, pool, lock) for f, s in SCHEMAS], 4)
    return check.finish()


def main(prop):
    return {"C14": main_c14, "C19": main_c19}[prop](prop)
