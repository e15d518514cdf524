"""C15: the configuration file that governs a run, and what it says (spec/Config.tla)."""
import json
import os
import random
import shutil
import subprocess
import sys
import tempfile
import threading

import adapter
from common import Check, parallel, tlc, VERIF
from planrun import chunks

NAME = "vmygrate.conf"


# ---- the worker: a process of its own whose root is a scratch directory ----------------------
def put(path, text):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "w") as fh:
        fh.write(text)


def env_text(tag, keys, rng):
    lines = ["# environment", "DECOY=nothing", ""]
    values = {}
    for k in sorted(set(keys)):
        v = "%s_%s" % (tag, k)
        way = rng.randrange(4)
        if way == 1:
            v += " x#1"
        if way == 2:
            v = ""
        values[k] = v
        lines.append({0: "%s=%s", 1: '%s = "%s"', 2: "%s: %s", 3: "%s='%s' # note"}[way] % (k, v))
    rng.shuffle(lines)
    return "\n".join(lines) + "\n", values


def run(job, root, modules, seen):
    """-> None or what is wrong"""
    sc, co, out, seed = job
    rng = random.Random(seed)
    for n in os.listdir(root):
        p = os.path.join(root, n)
        shutil.rmtree(p) if os.path.isdir(p) and not os.path.islink(p) else os.remove(p)
    os.makedirs(os.path.join(root, "d1/d2/d3"))
    for d in ("sub", "d1/sub", "d1/d2/sub", "d1/d2/d3/sub"):
        os.makedirs(os.path.join(root, d))
    base = "" if root == "/" else root

    def path_of(parts):
        return (base + "/" + "/".join(parts)) if parts else (base or "/")

    def loc_text(loc):
        return path_of(loc["path"]) if loc["abs"] else "/".join(loc["path"])
    values = {}         # normal path of an environment file -> settings

    def fill(where, env, sql):
        tag = "_".join(where) or "root"
        text, vals = env_text(tag, [k for i, k in enumerate(co["keys"])] + ["HOST", "PASSWORD"], rng)
        lost = {co["keys"][i - 1] for i in co["envdrop"]}
        text = "\n".join(l for l in text.split("\n") if not any(l.startswith(k + c) for k in lost for c in "=: "))
        if env:
            put(env, text)
            values[os.path.normpath(env)] = {k: v for k, v in vals.items() if k not in lost}
        if sql:
            put(os.path.join(sql, "t.sql"), "CREATE TABLE `t_%s` (`id` INT NOT NULL, PRIMARY KEY (`id`));\n" % (os.path.normpath(sql)[len(base):].replace("/", "_").replace(".", "")))
    for conf in sc["files"]:
        directory = path_of(conf[:-1])
        os.makedirs(directory, exist_ok=True)
        for loc, kind in ((co["env"], "env"), (co["sql"], "sql")):
            # every part of the way has to exist
            full = loc_text(loc) if loc["abs"] else os.path.join(directory, loc_text(loc))
            walk = "/"
            for part in full.strip("/").split("/")[:-1]:
                walk = os.path.join(walk, part)
                if not os.path.isdir(walk):
                    os.makedirs(walk)
            if kind == "sql":
                fill(conf[:-1], None, full)
            elif not co["noenv"]:
                fill(conf[:-1], full, None)
        entries = {"files_directory": loc_text(co["sql"]), "env_file": loc_text(co["env"])}
        for k, v in zip(("hostname_key", "username_key", "password_key", "database_key"), co["keys"]):
            entries[k] = v
        lines = ["%s=%s" % (k, v) for k, v in entries.items() if k not in co["drop"]]
        rng.shuffle(lines)
        put(path_of(conf), "# mygrations\n" + "\n".join(lines) + "\n")
    for d in sc["dirs"]:
        os.makedirs(path_of(d))
    os.chdir(path_of(["d1", "d2", "d3"][:sc["cwd"]]))
    request = loc_text(sc["request"])
    connects = []

    def connect(*a, **k):
        connects.append({n: v for n, v in k.items() if isinstance(v, (str, int, type(None)))})
        return adapter.FakeConnection([])
    import pymysql
    pymysql.connect = connect
    plan_module, apply_module = modules
    got, error = None, None
    module = rng.choice([plan_module, plan_module, apply_module])
    with adapter.quiet() as (_, err):
        try:
            got = module.execute({"config": request, "force": False, "version": False}, print_results=False)[0]
        except Exception as e:
            error = "%s: %s" % (type(e).__name__, e)
        shown = err.getvalue()
    os.chdir("/")
    seen[out["k"]] = seen.get(out["k"], 0) + 1
    what = {"request": request, "cwd": sc["cwd"], "scenario": [sc, co, out], "error": error, "plan": got, "connects": connects, "shown": shown}
    if out["k"] == "error":
        if error is None:
            return dict(what, why="no error although %s" % ("there is no such file" if not out["names"] and not out.get("any") else "entries are missing: %s" % (out.get("any") or out["names"])))
        if connects:
            return dict(what, why="a connection is attempted although there is an error")
        wanted = out.get("any") or out["names"]
        if wanted and not any(w in error for w in wanted):
            return dict(what, why="the error does not name any of %s" % wanted)
        return None
    if error is not None:
        return dict(what, why="fails without need")
    if len(connects) != 1:
        return dict(what, why="%d connections" % len(connects))
    k = connects[0]
    settings = values[os.path.normpath(path_of(out["env"]))]
    for names, key in ((("host",), 0), (("user",), 1), (("password", "passwd"), 2), (("database", "db"), 3)):
        v = [k[n] for n in names if n in k]
        if v != [settings[out["keys"][key]]]:
            return dict(what, why="connects with %s = %r instead of %r" % (names[0], v, settings[out["keys"][key]]))
    want = "t_" + path_of(out["sql"])[len(base):].replace("/", "_").replace(".", "")
    if not any("`%s`" % want in s for s in got) or sum("CREATE TABLE" in s for s in got) != 1:
        return dict(what, why="reads other files than those of %s" % path_of(out["sql"]))
    return None


def worker():
    jobs = json.load(sys.stdin)
    from mygrations.core.commands import apply, plan
    import glob, encodings.idna, linecache, traceback  # noqa: what may be needed later cannot be loaded later
    with adapter.quiet():
        try:
            plan.execute({"connection": adapter.FakeConnection([]), "sql_files": ["CREATE TABLE t (id INT NOT NULL);\nINSERT INTO t (id) VALUES (1);"]})
        except Exception:  # noqa: only there to load things
            pass
    scratch = tempfile.mkdtemp(prefix="vconf_")
    root, chrooted, seen, bad = scratch, False, {}, []
    pid = os.fork()
    if pid == 0:
        r = 1
        try:
            try:
                os.unshare(os.CLONE_NEWUSER)
                os.chroot(scratch)
                root, chrooted = "/", True
                os.chdir("/")
            except OSError:
                pass
            for job in jobs:
                if chrooted and root == "/" and os.path.exists("/etc"):
                    raise AssertionError("not where it should be")
                b = run(job, root, (plan, apply), seen)
                if b:
                    bad.append(b)
            sys.stdout.write(json.dumps({"bad": bad, "seen": seen, "chroot": chrooted}))
            sys.stdout.flush()
            r = 0
        except BaseException:
            traceback.print_exc()
        os._exit(r)
    _, status = os.waitpid(pid, 0)
    shutil.rmtree(scratch, ignore_errors=True)
    sys.exit(0 if status == 0 else 1)


def batch(jobs):
    p = subprocess.run([sys.executable, "-W", "ignore", os.path.join(VERIF, "lib", "c_config.py")], input=json.dumps(jobs).encode(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=600)
    if p.returncode:
        raise AssertionError("worker: " + p.stderr.decode()[-1500:])
    return json.loads(p.stdout.decode())


def main(prop):
    check = Check(prop)
    check.assumptions = ["the working directory and the directories above it are no symbolic links", "pymysql.connect is replaced by a stand-in that records its arguments",
                         "every process runs with a scratch directory for its root where user namespaces allow it"]
    lock = threading.Lock()

    def family(f, limit):
        r = tlc("Config", {"FAMILY": f}, workers=2)
        rng = random.Random("C15 " + f)
        records = sorted(r.records, key=lambda x: json.dumps(x, sort_keys=True))
        for x in records:
            for k in ("drop", "envdrop"):
                x["co"][k] = sorted(x["co"][k])
        if len(records) > limit:
            records = rng.sample(records, limit)
        jobs = [(x["sc"], x["co"], x["out"], "C15 %s %d" % (f, n)) for n, x in enumerate(records)]
        outs = parallel([lambda p=p: batch(p) for p in chunks(jobs, 500)], 4)
        with lock:
            check.add_tlc(r)
            check.traces += len(jobs)
            e = check.extra.setdefault(f, {"runs": len(jobs), "of": len(r.records), "in a root of their own": all(o["chroot"] for o in outs)})
            for o in outs:
                for k, v in o["seen"].items():
                    e[k] = e.get(k, 0) + v
                for b in o["bad"]:
                    check.violation("[%s] %s" % (f, b.pop("why")), b)
            check.sample({"scenario": jobs[len(jobs) // 2][:3]}, 4)
    parallel([lambda: family("search", 10 ** 6 if check.thorough else 3500), lambda: family("content", 10 ** 6)], 2)
    return check.finish()


if __name__ == "__main__":
    worker()
