"""C06, C07: what is reported about declarations, against the rules of spec/Valid.tla."""
import random

import adapter
from common import Check, SEED, parallel, tlc, workers

LIVE = [("talpha", "CREATE TABLE `talpha` (\n  `id` int NOT NULL,\n  PRIMARY KEY (`id`)\n) ENGINE=InnoDB DEFAULT CHARSET=utf8mb4 COLLATE=utf8mb4_0900_ai_ci")]
QUERIES = ("errors", "schema", "parsing", "global", "warnings", "tables", "tables_global", "unfulfilled")


def ask(db, what):
    """the ways there are to ask a database or its tables about errors"""
    if what == "errors":
        return db.errors
    if what == "schema":
        return db.find_schema_errors()
    if what == "parsing":
        return db.find_parsing_errors()
    if what == "global":
        return db.global_errors
    if what == "warnings":
        return db.warnings
    if what == "tables":
        return [t.schema_errors for t in db.tables.values()]
    if what == "tables_global":
        return [t.global_errors for t in db.tables.values()]
    if what == "unfulfilled":
        return [db.unfulfilled_fks(t) for t in db.tables.values()]


def unfulfilled(db):
    out = []
    for n, t in db.tables.items():
        for k, v in db.unfulfilled_fks(t).items():
            out.append([n, k, v["error"], v["foreign_key"].name])
    return out


def observe(job):
    """-> what the real code says about one declaration, in several orders of asking"""
    rec, path, seed = job
    rng = random.Random(seed)

    def build():
        if path == "sql":
            return adapter.declared_database(rec["decl"])
        if path == "files":
            return adapter.declared_database([s + ";" for s in rec["decl"].split(";") if s.strip()])
        if path == "api":
            return adapter.build_database(rec["db"])
        return adapter.build_database(rec["db"][::-1])
    from mygrations.formats.mysql.mygrations.mygration import Mygration
    with adapter.quiet():
        try:
            db = build()
            first = [str(e) for e in db.errors]
            fks = unfulfilled(db)
            again = [[str(e) for e in db.errors]]
            for _ in range(2):
                d2 = build()
                qs = [q for q in QUERIES if rng.random() < 0.6]
                rng.shuffle(qs)
                for q in qs:
                    ask(d2, q)
                again.append([str(e) for e in d2.errors])
                again.append([str(e) for e in d2.errors])
            m = Mygration(db, adapter.live_database(LIVE), rng.random() < 0.5)
            ops = adapter.statements(m.operations)
            seen = [str(e) for e in (m.errors or [])]
            return {"errors": first, "again": again, "fks": fks, "ops": ops, "migration_errors": seen}
        except Exception as e:  # noqa: a crash of the real code is a result
            return {"crash": "%s: %s" % (type(e).__name__, e)}


def observe_many(jobs):
    return [observe(j) for j in jobs]


def mentions(e, o):
    """is object o named in this message, as a whole word?"""
    i = e.find(o)
    while i >= 0:
        a, b = e[i - 1:i], e[i + len(o):i + len(o) + 1]
        if not (a.isalnum() or a == "_") and not (b.isalnum() or b == "_"):
            return True
        i = e.find(o, i + 1)
    return False


def judge07(rec, path, o):
    if "crash" in o:
        return "asking for errors crashes: " + o["crash"]
    errs, faults = o["errors"], rec["faults"]
    if not faults and errs:
        return "a valid declaration is reported: %s" % errs[:2]
    if faults and not errs:
        return "an invalid declaration is not reported: %s" % faults
    # a statement which cannot be read is reported as a whole, and what follows it is not looked at
    unread = any("CREATE TABLE" in e for e in errs)
    for f in faults if not unread else []:
        named = [e for e in errs if f["o"] == "" or mentions(e, f["o"]) or (f["k"] == "noname")]
        if not named:
            return "no error names the fault %s; errors: %s" % (f, errs[:3])
    if not unread:
        # every fault has an error of its own
        for n in {f["o"] for f in faults if f["o"]}:
            want = len([f for f in faults if f["o"] == n])
            if len({e for e in errs if mentions(e, n)}) < len({(f["t"], f["k"]) for f in faults if f["o"] == n}):
                return "%d faults of %s but only these errors: %s" % (want, n, errs[:4])
        if len(errs) < len({(f["t"], f["o"], f["k"]) for f in faults}):
            return "fewer errors than faults: %s for %s" % (errs[:4], faults)
        for n in rec["clean"]:
            for e in errs:
                if e.rstrip().endswith("in table '%s'" % n):
                    return "an error about table %s, which is in order: %s" % (n, e)
    for other in o["again"]:
        if sorted(other) != sorted(errs):
            return "the errors depend on what was asked before: %s / %s" % (errs[:3], other[:3])
    if errs and o["ops"] is not None:
        return "a plan is made in spite of errors: %s" % o["ops"][:2]
    if errs and not o["migration_errors"]:
        return "no plan, but no errors either"
    if not errs and o["ops"] is None:
        return "no plan for a valid declaration: %s" % o["migration_errors"][:2]
    return None


def judge06(rec, path, o):
    if "crash" in o:
        return "asking for errors crashes: " + o["crash"]
    errs = o["errors"]
    want = sorted([k["t"], n] for k in rec["keys"] for n in k["bad"])
    got = sorted([t, n] for t, n, _, _ in o["fks"])
    if want != got:
        return "unfulfilled keys %s, but by the rules %s" % (got, want)
    for t, n, e, name in o["fks"]:
        if n != name:
            return "key %s is handed out as %s" % (n, name)
        if e not in errs:
            return "the database-wide errors lack %s" % e
    shared = [f for f in rec["faults"] if f["k"] == "shared"]
    for f in shared:
        if not any(mentions(e, f["o"]) and mentions(e, f["t"]) for e in errs):
            return "the shared name %s is not reported" % f["o"]
    if len(errs) != len(rec["faults"]):
        return "%d errors for %d faults: %s / %s" % (len(errs), len(rec["faults"]), errs[:4], rec["faults"])
    bad = {n for _, n in want} | {f["o"] for f in shared}
    for k in rec["keys"]:
        for n in k["all"]:
            if n not in bad and any(mentions(e, n) and e.find("foreign key") >= 0 for e in errs if not any(mentions(e, x) for x in bad)):
                return "a good key is reported: %s" % n
    for other in o["again"]:
        if sorted(other) != sorted(errs):
            return "the errors depend on what was asked before: %s / %s" % (errs[:3], other[:3])
    return None


def plan_of(prop, thorough):
    #            mode       focus  size  seeds  paths
    k = 6 if thorough else 1
    if prop == "C07":
        specs = [("singles", "none", 0, ["sql", "api"]), ("pairs", "none", 1500 * k, ["sql", "api"]), ("collide", "none", 0, ["sql"])]
        specs += [("plain", f, s, ["sql", "api"]) for f, s in (("kinds", 0), ("indexes", 0), ("indexcols", 0), ("autoinc", 0), ("charsets", 0), ("onefk", 0), ("graphs", 0), ("any", 150 * k))]
        return specs
    specs = [("keys", "none", 3000 * k, ["sql", "api"]), ("nets", "none", 2500 * k, ["sql", "api", "reversed"])]
    specs += [("plain", f, s, ["sql", "reversed"]) for f, s in (("onefk", 0), ("graphs", 0), ("fknames", 0), ("fkchar", 0), ("any", 150 * k))]
    if thorough:
        specs.append(("allkeys", "none", 30000, ["sql", "api"]))
    return specs


def buildable(rec):
    """the API refuses at once what holds a name twice"""
    if any(c["ty"] in ("BOOL", "BOOLEAN") for t in rec["db"] for c in t["cols"]):
        return False        # spellings of the SQL grammar only
    return not any(f["k"] in ("twice", "semicolon") for f in rec["faults"]) and len({t["name"] for t in rec["db"]}) == len(rec["db"])


def main(prop):
    check = Check(prop)
    check.assumptions = ["the rules of spec/Valid.tla are those of the library (its documented policy where it is stricter than MySQL)",
                         "errors are attributed to faults by the names they mention"]
    judge = judge07 if prop == "C07" else judge06
    specs = plan_of(prop, check.thorough)
    results = parallel([lambda s=s: tlc("Valid", {"FOCUS": s[1], "SEED": SEED, "SIZE": s[2], "MODE": s[0]}, workers=1) for s in specs], 5)
    faulty = 0
    with workers(7) as pool:
        for (mode, focus, size, paths), r in zip(specs, results):
            check.add_tlc(r)
            jobs = []
            for n, rec in enumerate(r.records):
                rec["faults"] = list(rec["faults"])
                for p in paths:
                    if p == "sql" or buildable(rec):
                        jobs.append((rec, p, "%s %s %d %s" % (SEED, mode, n, p)))
            parts = [jobs[i:i + 60] for i in range(0, len(jobs), 60)]
            out = [o for part in pool.map(observe_many, parts) for o in part]
            for (rec, path, _), o in zip(jobs, out):
                check.traces += 1
                faulty += 1 if rec["faults"] else 0
                msg = judge(rec, path, o)
                if msg:
                    check.violation("[%s/%s %d %s] %s" % (mode, focus, rec["id"], path, msg), {"declared": rec["decl"], "path": path, "faults": rec["faults"], "keys": rec["keys"], "observed": o}, msg.split(":")[0] + " | " + rec["decl"])
            check.sample({"mode": mode, "declared": r.records[len(r.records) // 2]["decl"], "faults": r.records[len(r.records) // 2]["faults"]}, 6)
    check.extra["declarations_with_faults"] = faulty
    return check.finish()
