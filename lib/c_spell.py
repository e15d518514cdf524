"""C10: every spelling of a declaration is read as what it says."""
import random
import threading

import adapter
import mysqlsql
from common import Check, SEED, TlcError, parallel, tlc, workers
from planrun import Universe, chunks
from readrun import Judge, observe_all

#          focus        size  drawn per schema (quick, thorough)  single deviations (quick, thorough)
PLAN = [("kinds",       0,    (8, 60),   (5000, 10 ** 6)),
        ("spell",       0,    (60, 600), (6000, 10 ** 6)),
        ("indexes",     0,    (2, 20),   (1500, 40000)),
        ("autoinc",     0,    (6, 60),   (1000, 40000)),
        ("onefk",       0,    (4, 40),   (2500, 40000)),
        ("charsets",    0,    (20, 200), (2000, 10 ** 6)),
        ("any",         40,   (30, 200), (1500, 40000))]


def read(text):
    with adapter.quiet():
        try:
            db = adapter.declared_database(text)
            errors = [str(e) for e in db.errors]
            # parsing may only be followed by the errors of the definition itself; these schemas have none
            return ("errors", errors) if errors else ("ok", observe_all(db))
        except Exception as e:
            return "crash", "%s: %s" % (type(e).__name__, e)


def read_many(texts):
    for t in texts:
        try:
            mysqlsql.statements(t)      # every spelling is SQL to the strict reader, or the generator is wrong
        except mysqlsql.Bad as e:
            if "server-chosen" not in str(e):
                raise
    return [read(t) for t in texts]


def texts_of(records, rng, limit):
    """-> [(d, opts, text)]: plain, drawn, and single deviations (at most limit of them)"""
    out, single = [], []
    for r in records:
        doc = r["doc"]
        if r["choice"]:
            out.append((r["d"], r["opts"], "".join(p[c - 1] for p, c in zip(doc, r["choice"]))))
        else:
            plain = [p[0] for p in doc]
            out.append((r["d"], r["opts"], "".join(plain)))
            single += [(r, k, a) for k, p in enumerate(doc) for a in range(1, len(p))]
    if len(single) > limit:
        # all alternatives of the places: a place is known by its alternatives
        kinds = {}
        rng.shuffle(single)
        for s in single:
            kinds.setdefault((tuple(s[0]["doc"][s[1]]), s[2]), []).append(s)
        picked = []
        while len(picked) < limit:
            for k in list(kinds):
                if kinds[k]:
                    picked.append(kinds[k].pop())
                else:
                    del kinds[k]
        single = picked[:max(limit, 0)]
    for r, k, a in single:
        out.append((r["d"], r["opts"], "".join(p[a] if j == k else p[0] for j, p in enumerate(r["doc"]))))
    seen, res = set(), []
    for x in out:
        if (x[0], x[2]) not in seen:
            seen.add((x[0], x[2]))
            res.append(x)
    return res


class Kind:
    def __init__(self, focus, size):
        self.focus, self.size, self.seed = focus, size, SEED


def run_focus(check, spec, pool, lock):
    focus, size, drawn, singles = spec
    t = 1 if check.thorough else 0
    u = Universe(focus, size)
    rng = random.Random("C10 %s %s" % (focus, u.seed))
    step = 30
    ranges = [(a, a + step - 1) for a in range(1, u.n + 1, step)]
    recs = []
    for r in parallel([lambda r=r: tlc("Spell", {"FOCUS": focus, "SEED": u.seed, "SIZE": size, "FROM": r[0], "UPTO": r[1], "RANDOMS": drawn[t]}, workers=1) for r in ranges], 3):
        recs += r.records
        with lock:
            check.add_tlc(r)
    work = texts_of(recs, rng, singles[t])
    judge = Judge(check, u)
    parts = chunks(work, 60)
    results = [x for p in pool.map(read_many, [[w[2] for w in p] for p in parts]) for x in p]
    for (d, opts, text), (kind, got) in zip(work, results):
        if kind == "ok":
            judge.add(d, "decl", opts, got, [], text)
        else:
            with lock:
                check.violation("[%s %d] not read: %s" % (focus, d, str(got)[:200]), {"text": text, "result": got, "plainly": u.decl(d)})

    def report(case, faults, texts):
        with lock:
            check.violation("[%s %d] read wrongly: %s" % (focus, case["d"], "; ".join(faults)),
                            {"texts": texts[:5], "of": len(texts), "plainly": u.decl(case["d"]), "read": [judge.tables[i - 1] for i in case["seen"]]})
    judge.judge(report)
    with lock:
        check.extra.setdefault("spellings_by_focus", {})[focus] = len(work)
        check.sample({"spelling": work[len(work) // 2][2], "plainly": u.decl(work[len(work) // 2][0])}, 6)


def main(prop):
    check = Check(prop)
    check.assumptions = ["spellings which the library refuses with an error (documented in DESIGN.md) are not among those generated"]
    lock = threading.Lock()
    with workers(6) as pool:
        parallel([lambda s=s: run_focus(check, s, pool, lock) for s in PLAN], 4)
    return check.finish()
