"""C13: the difference of two tables, applied in memory, gives the second one."""
import threading
import random

import adapter
import mysqlsql
from common import Check, parallel, tlc, workers
from planrun import Universe, chunks, pick_pairs

#          focus        size  quick thorough  declared texts as first version as well
PLAN = [("kinds",       0,    900,  9000, True),
        ("cols",        0,    700,  1600, True),
        ("indexes",     0,    700,  14000, True),
        ("indexcols",   0,    700,  14400, True),
        ("autoinc",     0,    400,  3600, True),
        ("onefk",       0,    700,  9300, True),
        ("graphs",      0,    200,  3000, True),
        ("fknames",     0,    200,  700, True),
        ("charsets",    0,    300,  1100, False),
        ("fkchar",      0,    200,  2000, False),
        ("any",         60,   500,  3700, True),
        ("edits",       300,  600,  1200, True)]
THOROUGH_ONLY = [("cols4", 0, 0, 4200, True), ("indexes3", 0, 0, 12000, True)]


def text_of(ops):
    return None if ops is None else [str(o) for o in ops]


def flat(alters):
    """the single operations of ALTER TABLEs, which are what can be applied"""
    return [op for alter in alters for op in alter]


def one_case(job):
    """-> dict of the texts observed, or {"crash": ...}"""
    name, live, text, decl, seed = job
    rng = random.Random(seed)
    with adapter.quiet():
        try:
            def first():
                if live:
                    return adapter.live_database([(name, text)])
                return adapter.declared_database(text)
            da, db, dc = first(), adapter.declared_database(decl), first()
            a, b = da.tables[name], db.tables[name]
            before = (a.nice(), b.nice())
            ops = list(a.to(b))
            split = a.to(b, True) if rng.random() < 0.5 else a.to(b, split_operations=True)
            if set(split) - {"removed_fks", "kitchen_sink", "fks"}:
                return {"crash": "unknown part in %s" % sorted(split)}
            parts = {k: ([split[k]] if k in split else []) for k in ("removed_fks", "kitchen_sink", "fks")}
            out = {"list": text_of(ops), "removed": text_of(parts["removed_fks"]), "sink": text_of(parts["kitchen_sink"]), "fks": text_of(parts["fks"])}
            if (a.nice(), b.nice()) != before:
                return {"crash": "computing the difference changed a table"}
            for op in flat(ops):
                way = rng.randrange(3)
                if way == 0:
                    a.apply_operation(op)
                elif way == 1:
                    da.apply_operation(name, op)
                else:
                    da.apply_operation(a, op)
            out["once"] = str(a.create())
            c = dc.tables[name]
            for k in ("removed_fks", "kitchen_sink", "fks"):
                for op in flat(parts[k]):
                    c.apply_operation(op)
            out["parts"] = str(c.create())
            if b.nice() != before[1]:
                return {"crash": "applying the difference changed the second table"}
            return out
        except Exception as e:
            return {"crash": "%s: %s" % (type(e).__name__, e)}


def many(jobs):
    return [one_case(j) for j in jobs]


def run_focus(check, spec, pool, lock):
    focus, size, quick, thorough, declared = spec
    limit = thorough if check.thorough else quick
    u = Universe(focus, size)
    rng = random.Random("C13 %s %s" % (focus, u.seed))
    pairs, full = pick_pairs(u, rng, limit)
    cases, jobs, seen = [], [], set()
    for n, (i, j) in enumerate(pairs):
        if i == 0:
            continue
        A, B = u.items[i - 1], u.items[j - 1]
        ways = ["80", "57", "decl"] if declared else ["80", "57"]
        way = ways[(i + j + n) % len(ways)]
        declB = dict(B["tables"])
        src = dict(A["tables"]) if way == "decl" else {t["name"]: t["text"] for t in A["show" + way]}
        for name in src:
            if name in declB and (name, src[name], declB[name]) not in seen:
                seen.add((name, src[name], declB[name]))
                cases.append({"a": i, "b": j, "name": name, "live": way != "decl"})
                jobs.append((name, way != "decl", src[name], declB[name], "C13 %d" % len(jobs)))
    out = [x for part in pool.map(many, chunks(jobs, 40)) for x in part]
    stmts, index = [], {}

    def stmt(text):
        st = mysqlsql.parse(text)
        st.pop("opts", None)
        key = repr(st)
        if key not in index:
            stmts.append(st)
            index[key] = len(stmts)
        return index[key]
    todo = []
    for case, job, o in zip(cases, jobs, out):
        if "crash" in o:
            with lock:
                check.violation("[%s a=%d b=%d %s] %s" % (focus, case["a"], case["b"], case["name"], o["crash"]), {"first": job[2], "second": job[3]})
            continue
        case["list"] = [stmt(t) for t in o["list"]]
        for k in ("removed", "sink", "fks"):
            case[k] = [stmt(t) for t in o[k]]
        case["once"], case["parts"] = stmt(o["once"]), stmt(o["parts"])
        todo.append((case, job, o))

    def judge(part):
        return tlc("TableTrace", {"FOCUS": focus, "SEED": u.seed, "SIZE": size}, {"cases.json": [c for c, _, _ in part], "stmts.json": stmts}, workers=1)
    parts = chunks(todo, 900)
    for part, r in zip(parts, parallel([lambda p=p: judge(p) for p in parts], 4)):
        with lock:
            check.add_tlc(r)
            check.traces += len(part)
            if len(r.records) != len(part):
                raise AssertionError("TLC judged %d of %d cases" % (len(r.records), len(part)))
            for rec in r.records:
                case, job, o = part[rec["case"] - 1]
                if rec["faults"]:
                    check.violation("[%s a=%d b=%d %s] %s" % (focus, case["a"], case["b"], case["name"], "; ".join(rec["faults"])),
                                    {"first": job[2], "second": job[3], "observed": o})
            check.extra.setdefault("equal_tables", 0)
            check.extra["equal_tables"] += sum(1 for rec in r.records if rec["same"])
    with lock:
        check.add_tlc(u.tlc)
        check.extra.setdefault("pairs_by_focus", {})[focus] = len(todo)
        if todo:
            _, job, o = todo[len(todo) // 2]
            check.sample({"first": job[2], "second": job[3], "operations": o["list"]}, 6)


def main(prop):
    check = Check(prop)
    check.assumptions = ["the table that comes out is read off the CREATE TABLE text the library renders for it (C11 is about that text)"]
    lock = threading.Lock()
    with workers(5) as pool:
        parallel([lambda s=s: run_focus(check, s, pool, lock) for s in PLAN + (THOROUGH_ONLY if check.thorough else [])], 4)
    return check.finish()
