"""C12: in-memory tables and databases under histories of edits, against spec/Edits.tla."""
import random

import adapter
from common import Check, SEED, parallel, tlc, workers
from c_valid import mentions

COLUMN = ("name", "column_type", "length", "null", "has_default", "default", "unsigned", "auto_increment", "enum_values", "character_set", "collate")
INDEX = ("name", "index_type", "columns")
KEY = ("name", "column_name", "foreign_table_name", "foreign_column_name", "on_delete", "on_update")


def build_table(t):
    from mygrations.formats.mysql.definitions.table import Table
    return Table(name=t["name"], columns=[adapter.build_column(c) for c in t["cols"]], indexes=[adapter.build_index(x) for x in t["idx"]],
                 constraints=[adapter.build_constraint(f) for f in t["fks"]])


def build(tables):
    db = adapter.declared_database([])
    for t in tables:
        db.add_table(build_table(t))
    return db


def operation(o):
    from mygrations.formats.mysql.mygrations.operations import add_column, change_column, remove_column, add_key, change_key, remove_key, add_constraint, change_constraint, remove_constraint
    k = o["op"]
    pos = {"end": False, "first": True, "after": o.get("ref")}.get(o.get("pos"))
    if k == "addcol":
        return add_column.AddColumn(adapter.build_column(o["col"]), pos)
    if k == "chgcol":
        return change_column.ChangeColumn(adapter.build_column(o["col"]))
    if k == "addidx":
        return add_key.AddKey(adapter.build_index(o["idx"]))
    if k == "chgidx":
        return change_key.ChangeKey(adapter.build_index(o["idx"]))
    if k == "addfk":
        return add_constraint.AddConstraint(adapter.build_constraint(o["fk"]))
    if k == "chgfk":
        return change_constraint.ChangeConstraint(adapter.build_constraint(o["fk"]))
    return None


def removal(o, table):
    """removals take the object that is to go, if it is there"""
    from mygrations.formats.mysql.mygrations.operations import remove_column, remove_key, remove_constraint
    pool, cls = {"rmcol": (table.columns, remove_column.RemoveColumn), "rmidx": (table.indexes, remove_key.RemoveKey), "rmfk": (table.constraints, remove_constraint.RemoveConstraint)}[o["op"]]
    obj = pool.get(o["name"])
    return cls(obj) if obj is not None else None


def perform(db, o, rng):
    """one edit in one of the ways there are; raises what the real code raises"""
    k, n = o["op"], o["t"]
    if k == "addtable":
        return db.add_table(build_table(o["tab"]))
    if k == "rmtable":
        return db.remove_table(db.tables[n] if n in db.tables and rng.random() < 0.5 else build_table({"name": n, "cols": [], "idx": [], "fks": []}))
    way = rng.randrange(3)
    if n not in db.tables:
        op = operation(o)
        if op is None:
            from mygrations.formats.mysql.mygrations.operations.remove_column import RemoveColumn
            op = RemoveColumn("x")
        return db.apply_operation(n if rng.random() < 0.5 else build_table({"name": n, "cols": [], "idx": [], "fks": []}), op)
    t = db.tables[n]
    if k in ("rmcol", "rmidx", "rmfk"):
        op = removal(o, t)
        if op is None or way == 0:
            return {"rmcol": t.remove_column, "rmidx": t.remove_index, "rmfk": t.remove_constraint}[k](o["name"])
        if way == 1 and rng.random() < 0.5:
            return t.apply_operation(op)
        return db.apply_operation(n, op) if way == 1 else db.apply_operation(t, op)
    if way == 0:
        if k == "addcol":
            pos = {"end": False, "first": True, "after": o.get("ref")}[o["pos"]]
            return t.add_column(adapter.build_column(o["col"]), pos) if pos is not False or rng.random() < 0.5 else t.add_column(adapter.build_column(o["col"]))
        arg = operation(o)
        return {"chgcol": t.change_column, "addidx": t.add_index, "chgidx": t.change_index, "addfk": t.add_constraint, "chgfk": t.change_constraint}[k](
            getattr(arg, "column", None) or getattr(arg, "key", None) or getattr(arg, "constraint", None))
    if way == 1:
        return t.apply_operation(operation(o))
    return db.apply_operation(n if rng.random() < 0.5 else t, operation(o))


def attrs(x, names):
    return {a: getattr(x, a) for a in names}


def compare(db, snap):
    """-> None or what is not as the state of the specification has it"""
    fresh = build(snap["tables"])
    if list(db.tables) != [t["name"] for t in snap["tables"]]:
        return "tables are %s, not %s" % (list(db.tables), [t["name"] for t in snap["tables"]])
    for s in snap["tables"]:
        n = s["name"]
        t, f = db.tables[n], fresh.tables[n]
        names = [c["name"] for c in s["cols"]]
        if list(t.columns) != names:
            return "columns of %s are %s, not %s" % (n, list(t.columns), names)
        for c in names:
            if attrs(t.columns[c], COLUMN) != attrs(f.columns[c], COLUMN):
                return "column %s.%s is %s, not %s" % (n, c, t.columns[c], f.columns[c])
        keys = [x["name"] or x["cols"][0] for x in s["idx"]]
        if list(t.indexes) != keys:
            return "indexes of %s are %s, not %s" % (n, list(t.indexes), keys)
        for x in keys:
            if attrs(t.indexes[x], INDEX) != attrs(f.indexes[x], INDEX):
                return "index %s of %s is %s, not %s" % (x, n, t.indexes[x], f.indexes[x])
        if list(t.constraints) != [x["name"] for x in s["fks"]]:
            return "foreign keys of %s are %s" % (n, list(t.constraints))
        for x in s["fks"]:
            if attrs(t.constraints[x["name"]], KEY) != attrs(f.constraints[x["name"]], KEY):
                return "foreign key %s of %s is %s" % (x["name"], n, t.constraints[x["name"]])
        if s["primary"]:
            if t.primary is None or list(t.primary.columns) not in s["primary"] or not any(t.primary is x for x in t.indexes.values()):
                return "primary key of %s is %s, but should be over %s" % (n, t.primary, s["primary"])
        elif t.primary is not None:
            return "%s has no primary key, but says %s" % (n, t.primary)
        for c in names + ["nowhere"]:
            for arg in (c, t.columns.get(c, c)):
                if bool(t.column_is_indexed(arg)) != (c in s["indexed"]):
                    return "column %s of %s: indexed is %s" % (c, n, t.column_is_indexed(arg))
        for c, b in zip(names, s["before"]):
            if t.column_before(c) != (b or True):
                return "before column %s of %s comes %s" % (c, n, t.column_before(c))
        try:
            t.column_before("nowhere")
            return "something comes before a column which is not there"
        except Exception:
            pass
        if names and (str(t.create()) != str(f.create()) or t.nice() != f.nice()):
            return "table %s is shown as %s" % (n, t.create())
    for s in snap["tables"]:
        got = sorted(db.unfulfilled_fks(db.tables[s["name"]]))
        if got != sorted(s["unfulfilled"]):
            return "unfulfilled keys of %s are %s, not %s" % (s["name"], got, s["unfulfilled"])
    errs = sorted(map(str, db.errors))
    if errs != sorted(map(str, fresh.errors)):
        return "the errors are %s, but for the same content built afresh %s" % (errs, sorted(fresh.errors))
    if bool(errs) != bool(snap["faults"]):
        return "the errors are %s, but by the rules the faults are %s" % (errs, snap["faults"])
    for x in snap["faults"]:
        if not any(mentions(e, x["o"]) for e in errs):
            return "fault %s is not among the errors %s" % (x, errs)
    if sorted(map(str, db.warnings)) != sorted(map(str, fresh.warnings)):
        return "the warnings are %s, but for the same content built afresh %s" % (sorted(db.warnings), sorted(fresh.warnings))
    for s in snap["tables"]:
        t, f = db.tables[s["name"]], fresh.tables[s["name"]]
        for q in ("schema_errors", "schema_warnings", "parsing_errors", "global_errors"):
            if sorted(map(str, getattr(t, q))) != sorted(map(str, getattr(f, q))):
                return "%s of %s are %s" % (q, s["name"], getattr(t, q))
    return None


def peek(db, rng):
    """asks for this and that, which must not change anything"""
    for _ in range(rng.randrange(4)):
        t = rng.choice(list(db.tables.values())) if db.tables else None
        q = rng.randrange(7)
        if q == 0:
            db.errors
        elif q == 1:
            db.warnings
        elif q == 2 and t is not None:
            t.schema_errors, t.schema_warnings, t.global_errors
        elif q == 3 and t is not None:
            [t.column_is_indexed(c) for c in t.columns]
        elif q == 4 and t is not None:
            db.unfulfilled_fks(t)
        elif q == 5 and t is not None:
            str(t.create()), t.nice(), t.primary
        elif q == 6 and t is not None:
            [t.column_before(c) for c in t.columns]


def replay(job):
    """-> None or (step, message): a history with the state of the specification after every step"""
    start, steps, mode, seed = job
    rng = random.Random(seed)
    with adapter.quiet():
        db = build(start)
        if mode == "watched":
            peek(db, rng)
        for i, st in enumerate(steps):
            try:
                perform(db, st["op"], rng)
                refused = False
            except Exception as e:
                refused = "%s: %s" % (type(e).__name__, e)
            if bool(refused) != st["refused"]:
                return i, "an impossible edit is not refused" if st["refused"] else "a possible edit is refused: %s" % refused
            try:
                if mode == "watched":
                    msg = compare(db, st["snap"])
                    if msg:
                        return i, msg
                else:
                    peek(db, rng)
            except Exception as e:
                return i, "crash %s: %s" % (type(e).__name__, e)
        try:
            msg = compare(db, steps[-1]["snap"])
        except Exception as e:
            msg = "crash %s: %s" % (type(e).__name__, e)
        return (len(steps) - 1, msg) if msg else None


def replay_many(jobs):
    return [replay(j) for j in jobs]


def main(prop):
    check = Check(prop)
    check.assumptions = ["the library's own column, index and foreign key objects are not changed after they are handed over",
                         "the name an index goes by (its own or, without one, that of its first column) is unique in a table; the collision of both is listed under C07"]
    #        mode  first last depth seed
    runs = [("menu", 1, 3, 2, SEED), ("long", 1, 250, 30, SEED)]
    if check.thorough:
        runs += [("menu", j, j, 3, SEED) for j in (1, 2, 3)] + [("long", 1, 480, 60, SEED + j) for j in range(1, 8)]

    def one(run):
        mode, first, last, depth, seed = run
        return tlc("Edits", {"SEED": seed, "FIRST": first, "SIZE": last, "MODE": mode, "DEPTH": depth}, workers=1, heap="6g", timeout=3000)
    with workers(7) as pool:
        for run, r in zip(runs, parallel([lambda x=x: one(x) for x in runs], 4)):
            check.add_tlc(r)
            depth = run[3]
            by = {(rec["h"], tuple(rec["hist"]) if run[0] == "menu" else rec["k"]): rec for rec in r.records}
            start = {rec["h"]: rec["start"] for rec in r.records if rec["k"] == 1}
            jobs = []
            if run[0] == "menu":
                for (h, hist), rec in by.items():
                    if len(hist) == depth:
                        steps = [by[(h, hist[:j])] for j in range(1, len(hist) + 1)]
                        jobs.append((h, steps, "blind"))
                        if len(hist) <= 2:
                            jobs.append((h, steps, "watched"))
            else:
                for h in sorted({k[0] for k in by}):
                    steps = [by[(h, j)] for j in range(1, depth + 1)]
                    # in full with a look at everything all the time, and with rare looks
                    jobs.append((h, steps, "watched"))
                    for cut in range(3, depth + 1, 3):
                        jobs.append((h, steps[:cut], "blind"))
            work = [(start[h], steps, mode, "%s %s %d %d %s" % (SEED, run, h, n, mode)) for n, (h, steps, mode) in enumerate(jobs)]
            parts = [work[i:i + 40] for i in range(0, len(work), 40)]
            out = [x for part in pool.map(replay_many, parts) for x in part]
            for w, o in zip(work, out):
                check.traces += 1
                if o:
                    at, msg = o
                    check.violation("[%s step %d] %s" % (run[0], at + 1, msg), {"start": [t["name"] for t in w[0]], "edits": [s["op"] for s in w[1][:at + 1]], "observed": w[2], "expected": w[1][at]["snap"], "message": msg})
            if jobs:
                check.sample({"edits": [s["op"] for s in jobs[len(jobs) // 2][1]][:6]})
            check.extra.setdefault("histories", {})[str(run)] = len(jobs)
    return check.finish()
