"""The real code, as a black box: SQL text in, SQL text out. Only public entry points are used."""
import contextlib
import io
import os
import signal
import sys
import threading
import warnings

warnings.filterwarnings("ignore")
sys.dont_write_bytecode = True
sys.path.insert(0, os.environ.get("VERIF_REPO", "/repo"))
sys.setrecursionlimit(5000)


class FakeCursor:
    """a DictCursor of a connection to a server whose tables are given as SHOW CREATE TABLE texts"""

    def __init__(self, conn):
        self.conn, self.result, self.rowcount, self.closed = conn, [], 0, False
        self.pos = 0
        self.description = None
        self.lastrowid = 0

    def execute(self, query, args=None):
        if args is not None:
            raise RuntimeError("parameters are not expected")
        self.conn.log.append(("execute", query))
        self.result = self.conn.answer(query)
        self.pos = 0
        self.rowcount = len(self.result)
        return self.rowcount

    def __iter__(self):
        while self.pos < len(self.result):
            self.pos += 1
            yield self.result[self.pos - 1]

    def fetchone(self):
        if self.pos < len(self.result):
            self.pos += 1
            return self.result[self.pos - 1]
        return None

    def fetchall(self):
        r = self.result[self.pos:]
        self.pos = len(self.result)
        return r

    def fetchmany(self, size=1):
        r = self.result[self.pos:self.pos + size]
        self.pos += len(r)
        return r

    def close(self):
        self.closed = True

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()
        return False


class FakeConnection:
    """stands in for a pymysql connection"""

    def __init__(self, tables, rows=None, fail=None):
        self.tables = tables            # list of (name, text)
        self.rows = rows or {}
        self.log = []                   # everything that reaches the server
        self.fail = fail                # called with (number of changing statements so far, query)
        self.changes = 0

    def cursor(self, *a, **k):
        return FakeCursor(self)

    def name_of(self, q, prefix):
        n = q[len(prefix):].strip().rstrip(";").strip()
        return n[1:-1].replace("``", "`") if n.startswith("`") else n

    def answer(self, query):
        q = query.strip()
        u = q.upper()
        if u.rstrip(";").strip() in ("SHOW TABLES", "SHOW FULL TABLES"):
            return [{"Tables_in_test": n} for n, _ in self.tables]
        if u.startswith("SHOW CREATE TABLE "):
            n = self.name_of(q, "SHOW CREATE TABLE ")
            for m, t in self.tables:
                if m == n:
                    return [{"Table": m, "Create Table": t}]
            raise RuntimeError("1146 no such table " + n)
        if u.startswith("SELECT * FROM "):
            n = self.name_of(q, "SELECT * FROM ")
            if n not in [m for m, _ in self.tables]:
                raise RuntimeError("1146 no such table " + n)
            return [dict(r) for r in self.rows.get(n, [])]
        self.changes += 1
        if self.fail:
            self.fail(self.changes, q)
        return []

    def commit(self):
        self.log.append(("commit", ""))

    def rollback(self):
        self.log.append(("rollback", ""))

    def close(self):
        self.log.append(("close", ""))


def live_database(tables, rows=None):
    from mygrations.drivers.pymysql.pymysql import PyMySQL
    from mygrations.formats.mysql.db_reader.database import Database
    return Database(PyMySQL(connection=FakeConnection(tables, rows)))


def declared_database(sources):
    from mygrations.formats.mysql.file_reader.database import Database
    return Database(sources)


class TooSlow(Exception):
    """the code under test has not come back"""


def _too_slow(*a):
    raise TooSlow("no answer within 60 s")


@contextlib.contextmanager
def quiet():
    """nothing printed, and no call that never ends"""
    out, err = io.StringIO(), io.StringIO()
    main = threading.current_thread() is threading.main_thread() and signal.getitimer(signal.ITIMER_REAL)[0] == 0
    if main:
        signal.signal(signal.SIGALRM, _too_slow)
        signal.setitimer(signal.ITIMER_REAL, 60)
    try:
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
            yield out, err
    finally:
        if main:
            signal.setitimer(signal.ITIMER_REAL, 0)


def statements(ops):
    return None if ops is None else [str(o) for o in ops]


def plan(tables, decl, bracket):
    """live tables [(name, text)], declaration text -> (list of statement texts | None, errors)"""
    from mygrations.formats.mysql.mygrations.mygration import Mygration
    with quiet():
        try:
            to = declared_database(decl)
            m = Mygration(to, live_database(tables), bracket)
            return statements(m.operations), [str(e) for e in (m.errors or [])]
        except Exception as e:  # noqa: any crash of the real code is a result
            return None, ["EXCEPTION %s: %s" % (type(e).__name__, e)]


# ---- definitions built through the API ------------------------------------------------
NUMERIC = {"TINYINT", "SMALLINT", "MEDIUMINT", "INT", "INTEGER", "BIGINT", "DECIMAL", "NUMERIC", "FLOAT", "DOUBLE", "BIT"}
DATES = {"DATE", "DATETIME", "TIMESTAMP", "TIME", "YEAR"}


def build_column(c):
    from mygrations.formats.mysql.definitions import columns
    ty = c["ty"]
    cls = columns.Numeric if ty in NUMERIC else columns.Date if ty in DATES else columns.Enum if ty in ("ENUM", "SET") else columns.String
    d = c["def"]
    default = None
    if d["k"] == "lit":
        default = d["s"]
    elif d["k"] == "raw":
        default = int(d["s"]) if d["n"] % 10000 == 0 and "." not in d["s"] else float(d["s"])
    elif d["k"] == "now":
        default = "CURRENT_TIMESTAMP"
    kw = {"name": c["name"], "column_type": ty, "null": c["nul"] != "NOT NULL", "has_default": d["k"] != "none", "default": default,
          "auto_increment": c["ai"]}
    if c["len"]:
        kw["length"] = ",".join(str(x) for x in c["len"])
    if c["un"]:
        kw["unsigned"] = True
    if c["cs"]:
        kw["character_set"] = c["cs"]
    if c["co"]:
        kw["collate"] = c["co"]
    if c["vals"]:
        kw["enum_values"] = list(c["vals"])
    return cls(**kw)


def build_index(x):
    from mygrations.formats.mysql.definitions.index import Index
    return Index(name=x["name"], columns=list(x["cols"]), index_type={"PRIMARY": "PRIMARY", "UNIQUE": "UNIQUE", "KEY": "INDEX"}[x["kind"]])


def build_constraint(f):
    from mygrations.formats.mysql.definitions.constraint import Constraint
    return Constraint(name=f["name"], column_name=f["col"], foreign_table_name=f["rt"], foreign_column_name=f["rc"], on_delete=f["del"], on_update=f["upd"])


def build_table(t):
    from mygrations.formats.mysql.definitions.table import Table
    from mygrations.core.definitions.option import Option
    # through the API whoever builds a table has to say that columns of its primary key are NOT NULL
    pk = [c for x in t["idx"] if x["kind"] == "PRIMARY" for c in x["cols"]]
    options = []
    if t.get("cs"):
        options.append(Option("DEFAULT CHARSET", t["cs"]))
    if t.get("co"):
        options.append(Option("COLLATE", t["co"]))
    return Table(name=t["name"], columns=[build_column(dict(c, nul="NOT NULL") if c["name"] in pk else c) for c in t["cols"]], indexes=[build_index(x) for x in t["idx"]],
                 constraints=[build_constraint(f) for f in t["fks"]], options=options)


def build_database(tables):
    db = declared_database([])
    for t in tables:
        db.add_table(build_table(t))
    return db


# ---- what the real code shows of a table ---------------------------------------------
def observe_default(c):
    if not c.has_default:
        return {"k": "none", "s": "", "num": False, "n": 0}
    d = c.default
    if d is None:
        return {"k": "null", "s": "", "num": False, "n": 0}
    if isinstance(d, str) and d.upper() == "CURRENT_TIMESTAMP" and c.column_type in ("DATETIME", "TIMESTAMP"):
        return {"k": "now", "s": "", "num": False, "n": 0}
    import mysqlsql
    return mysqlsql.literal(str(d))


def observe_column(c):
    return {"name": c.name, "ty": c.column_type, "len": [int(x) for x in str(c.length).split(",")] if c.length not in (None, "") else [],
            "nul": "NULL" if c.null else "NOT NULL", "un": bool(c.unsigned), "ai": bool(c.auto_increment), "def": observe_default(c),
            "vals": list(c.enum_values or []), "cs": (c.character_set or "").lower(), "co": (c.collate or "").lower(), "o": "new"}


def observe_index(x):
    kind = {"PRIMARY": "PRIMARY", "UNIQUE": "UNIQUE", "INDEX": "KEY"}[str(x.index_type).upper()]
    return {"name": "" if kind == "PRIMARY" else x.name, "kind": kind, "cols": list(x.columns)}


def observe_constraint(f):
    return {"name": f.name, "col": f.column_name, "rt": f.foreign_table_name, "rc": f.foreign_column_name, "del": f.on_delete.upper(), "upd": f.on_update.upper()}


def observe_table(t):
    """the table as its public properties show it, in the form of a create statement of spec/MySQL.tla"""
    import mysqlsql
    o = {"t": "create", "name": t.name, "cols": [observe_column(c) for c in t.columns.values()], "idx": [observe_index(x) for x in t.indexes.values()],
         "fks": [observe_constraint(f) for f in t.constraints.values()], "cs": "", "co": "", "opts": []}
    for opt in t.options:
        name = " ".join(str(opt.name).upper().split())
        value = str(opt.value)
        toks = mysqlsql.lex(value) if value[:1] in "'\"" else [("word", value)]
        value = toks[0][1] if len(toks) == 1 else "?" + value
        if name in ("DEFAULT CHARSET", "CHARSET", "DEFAULT CHARACTER SET", "CHARACTER SET") and not o["cs"]:
            o["cs"] = value.lower()
        elif name in ("COLLATE", "DEFAULT COLLATE") and not o["co"]:
            o["co"] = value.lower()
        else:
            o["opts"].append([name, value])
    for kind, things in (("column", t.columns), ("index", t.indexes), ("constraint", t.constraints)):
        for key, thing in things.items():
            if key != thing.name and not (kind == "index" and str(thing.index_type).upper() == "PRIMARY"):
                raise ValueError("%s %s is filed under %s" % (kind, thing.name, key))
    return o
