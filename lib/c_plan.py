"""C01 - C05: what plans do to the live schema."""
import threading

from common import Check, parallel, workers
from planrun import Universe, Runner, Case, pick_pairs

ASSUME = ["the server behaves as spec/MySQL.tla says (InnoDB, MySQL 5.7/8.0 refusals and displays; no MySQL server is available offline)",
          "statements are independent of the data in the tables (no conversion errors)"]

#          focus        size  quick thorough
PLAN = [("kinds",       0,    1100, 20000),
        ("cols",        0,    700,  1700),
        ("indexes",     0,    900,  12000),
        ("indexcols",   0,    800,  14400),
        ("autoinc",     0,    700,  3600),
        ("onefk",       0,    1800, 9300),
        ("graphs",      0,    900,  12000),
        ("fknames",     0,    700,  1200),
        ("charsets",    0,    500,  1100),
        ("fkchar",     0,    500,  8000),
        ("any",         60,   700,  3700),
        ("edits",       300,  800,  1200)]
THOROUGH_ONLY = [("cols4", 0, 0, 4200), ("indexes3", 0, 0, 8000), ("graphs3", 0, 0, 12000)]


def violates(prop, v, c):
    """does the verdict of the model break this property? -> text or None"""
    if v is None:
        return "no plan for a valid declaration: %s" % (c.errors,)
    if v.get("good"):
        return None
    if prop == "C01":
        if v["err"]:
            return "the declared schema is not reached: statement %d refused with %s" % (v["at"], v["err"])
        return "; ".join(v["diff"]) or None
    if prop == "C02":
        if v["err"]:
            return "statement %d refused by the server with %s" % (v["at"], v["err"])
        return None if v["bracket"] else "foreign key checks are not switched off first and on last"
    if prop == "C03":
        return "%d statements planned although the declaration is fulfilled" % v["planned"] if v["matched"] and v["planned"] else None
    if prop == "C04":
        return "statement %d of the second plan refused with %s" % (v["at"], v["err"]) if v["err"] else "; ".join(v["diff"] + v["lost"]) or None
    if prop == "C05":
        return "; ".join(v["needless"] + v["lost"]) or None
    raise KeyError(prop)


def run_focus(check, prop, spec, pool, lock):
    focus, size, quick, thorough = spec
    limit = thorough if check.thorough else quick
    size = size * (4 if check.thorough and focus in ("edits",) else 1)
    u = Universe(focus, size)
    with lock:
        check.add_tlc(u.tlc)
        rng = __import__("random").Random("%s %s %s" % (prop, focus, u.seed))
    rn = Runner(check, u, pool)
    if prop in ("C03",):
        # the schemas as the server displays them against their own declarations, in both styles, and then what
        # plans between different schemas leave behind against the declaration
        pairs, full = pick_pairs(u, rng, limit // 2)
        cases = [Case(i, i, st, "none", u.live(i, st)) for i in range(1, u.n + 1) for st in ("80", "57")]
    elif prop == "C04":
        pairs, full = pick_pairs(u, rng, max(60, limit // 3))
        cases = []
    else:
        pairs, full = pick_pairs(u, rng, limit)
        cases = []
    crash = prop in ("C03", "C04")
    for n, (i, j) in enumerate(pairs):
        st = "80" if (i + j + n) % 2 else "57"
        cases.append(Case(i, j, st, "own" if n % 3 else "none", u.live(i, st), crash=st if crash else ""))
    rn.plan(cases)
    verdicts, crashes = rn.judge(cases)
    judged = list(zip(cases, verdicts))
    if crash:
        again, seen = [], set()
        for c, k, show in crashes:
            last = c.idx is not None and all(rn.stmts[x - 1]["t"] == "fkc" for x in c.idx[k:])
            if prop == "C03" and not last:
                continue
            key = (tuple(show), c.decl)
            if key in seen:
                continue
            seen.add(key)
            again.append(Case(c.live, c.decl, c.style, "own", show, pre=c.idx[:k]))
        if prop == "C03":
            again = [c for c in again]
        cap = limit * 2
        if len(again) > cap:
            rng.shuffle(again)
            again = again[:cap]
        rn.plan(again)
        v2, _ = rn.judge(again)
        if prop == "C04":
            judged = list(zip(again, v2))
        else:
            judged += list(zip(again, v2))
    with lock:
        check.extra.setdefault("plans_by_focus", {})[focus] = len(judged)
        if full and not crash:
            check.extra.setdefault("exhaustive_focuses", []).append(focus)
        for c, v in judged:
            msg = violates(prop, v, c)
            if msg:
                check.violation("[%s live=%d declared=%d] %s" % (focus, c.live, c.decl, msg), rn.describe(c, v))
        for c, v in judged[len(judged) // 2:len(judged) // 2 + 1]:
            check.sample({"focus": focus, "live": [t for _, t in c.tables], "declared": u.decl(c.decl), "plan": c.texts}, 6)


def main(prop):
    check = Check(prop)
    check.assumptions = list(ASSUME)
    lock = threading.Lock()
    specs = [s for s in PLAN] + (THOROUGH_ONLY if check.thorough else [])
    with workers(5) as pool:
        parallel([lambda s=s: run_focus(check, prop, s, pool, lock) for s in specs], 4)
    return check.finish()
