"""Plans of the real code, judged by the server model (spec/PlanTrace.tla)."""
import json
from concurrent.futures import ProcessPoolExecutor

import adapter
import mysqlsql
from common import SEED, tlc, parallel


def _plan_many(jobs):
    out = []
    for tables, decl, bracket in jobs:
        texts, errors = adapter.plan(tables, decl, bracket)
        out.append((texts, errors))
    return out


def chunks(xs, n):
    return [xs[i:i + n] for i in range(0, len(xs), n)]


class Universe:
    def __init__(self, focus, size=40, seed=None):
        self.focus, self.size, self.seed = focus, size, SEED if seed is None else seed
        r = tlc("Gen", {"FOCUS": focus, "SEED": self.seed, "SIZE": size}, workers=1)
        self.tlc = r
        self.items = sorted(r.records, key=lambda x: x["id"])
        for x in self.items:
            if x["err"]:
                raise AssertionError("universe %s: schema %d is refused by the server model: %s" % (focus, x["id"], x["err"]))
        self.n = len(self.items)

    def live(self, i, style):
        return [] if i == 0 else [(t["name"], t["text"]) for t in self.items[i - 1]["show" + style]]

    def decl(self, j):
        return self.items[j - 1]["decl"] or "-- nothing declared\n"


class Case:
    __slots__ = ("live", "pre", "decl", "style", "mode", "tables", "texts", "errors", "crash", "idx", "pre_texts")

    def __init__(self, live, decl, style, mode, tables, pre=(), crash=""):
        self.live, self.decl, self.style, self.mode, self.tables, self.pre, self.crash = live, decl, style, mode, tables, list(pre), crash
        self.texts = self.errors = self.idx = None


class Runner:
    """plans all cases of a universe with the real code and has TLC judge them"""

    def __init__(self, check, universe, pool):
        self.check, self.u, self.pool = check, universe, pool
        self.stmts, self.index = [], {}

    def stmt(self, text):
        if text not in self.index:
            st = mysqlsql.parse(text)
            st.pop("opts", None)
            if st["t"] == "row":
                st = {"t": "row", "name": st["name"], "cols": st["cols"]}
            key = json.dumps(st, sort_keys=True)
            if key not in self.index:
                self.stmts.append(st)
                self.index[key] = len(self.stmts)
            self.index[text] = self.index[key]
        return self.index[text]

    def plan(self, cases):
        jobs = [(c.tables, self.u.decl(c.decl), c.mode == "own") for c in cases]
        parts = chunks(jobs, 40)
        res = [x for part in self.pool.map(_plan_many, parts) for x in part]
        for c, (texts, errors) in zip(cases, res):
            c.texts, c.errors = texts, errors
        return cases

    def judge(self, cases, per=450):
        """-> list of verdict records in the order of the cases, list of crash records"""
        todo = []
        for c in cases:
            if c.texts is not None:
                c.idx = [self.stmt(t) for t in c.texts]
                todo.append(c)
        verdicts, crashes = {}, []

        def one(part):
            # one worker each: TLC's values are normalised lazily, which is not safe in parallel
            data = [{"live": c.live, "pre": c.pre, "decl": c.decl, "plan": c.idx, "mode": c.mode, "crash": c.crash} for c in part]
            return tlc("PlanTrace", {"FOCUS": self.u.focus, "SEED": self.u.seed, "SIZE": self.u.size}, {"cases.json": data, "stmts.json": self.stmts}, workers=1)
        n = max(1, -(-len(todo) // per))
        size = -(-len(todo) // n) if todo else 1
        parts = chunks(todo, size)
        for part, r in zip(parts, parallel([lambda p=p: one(p) for p in parts], 4)):
            self.check.add_tlc(r)
            self.check.traces += len(part)
            for rec in r.records:
                if "crash" in rec:
                    crashes.append((part[rec["crash"] - 1], rec["k"], [(t["name"], t["text"]) for t in rec["show"]]))
                else:
                    verdicts[id(part[rec["case"] - 1])] = rec
        if len(verdicts) != len(todo):
            raise AssertionError("TLC judged %d of %d cases" % (len(verdicts), len(todo)))
        return [verdicts.get(id(c)) for c in cases], crashes

    def describe(self, c, v):
        return {"focus": self.u.focus, "seed": self.u.seed, "size": self.u.size, "live_id": c.live, "decl_id": c.decl,
                "live": [t for _, t in c.tables], "declared": self.u.decl(c.decl), "executed_before": [self.stmts[i - 1] for i in c.pre],
                "plan": c.texts, "errors": c.errors, "verdict": v}


def pick_pairs(u, rng, limit, style_of=lambda k: "80" if k % 2 else "57"):
    """pairs (live, declared) of a universe: all if they are few enough, else a seeded sample"""
    n = u.n
    if u.focus == "edits":
        base = [(2 * i - 1, 2 * i) for i in range(1, n // 2 + 1)] + [(2 * i, 2 * i - 1) for i in range(1, n // 2 + 1)] + [(i, i) for i in range(1, n + 1)]
        rng.shuffle(base)
        return base[:limit], len(base) <= limit
    total = (n + 1) * n
    if total <= limit:
        return [(i, j) for i in range(0, n + 1) for j in range(1, n + 1)], True
    pairs = {(i, i) for i in range(1, n + 1)} if n <= limit // 2 else set()
    while len(pairs) < limit:
        pairs.add((rng.randrange(0, n + 1), rng.randrange(1, n + 1)))
    return sorted(pairs), False
