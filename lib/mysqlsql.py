"""A strict reader of the MySQL statements a migration consists of.

Turns one statement, as it would be sent to the server, into the abstract statements of
spec/MySQL.tla. Whatever MySQL's grammar refuses (unquoted reserved words, clauses in
the wrong place, unbalanced quotes, more than one statement, ...) becomes {"t": "bad"}.
"""
import re
from decimal import Decimal, ROUND_HALF_UP, InvalidOperation

RESERVED = set("""ACCESSIBLE ADD ALL ALTER ANALYZE AND AS ASC ASENSITIVE BEFORE BETWEEN BIGINT BINARY BLOB BOTH BY CALL CASCADE CASE CHANGE
CHAR CHARACTER CHECK COLLATE COLUMN CONDITION CONSTRAINT CONTINUE CONVERT CREATE CROSS CUBE CUME_DIST CURRENT_DATE CURRENT_TIME
CURRENT_TIMESTAMP CURRENT_USER CURSOR DATABASE DATABASES DAY_HOUR DAY_MICROSECOND DAY_MINUTE DAY_SECOND DEC DECIMAL DECLARE DEFAULT
DELAYED DELETE DENSE_RANK DESC DESCRIBE DETERMINISTIC DISTINCT DISTINCTROW DIV DOUBLE DROP DUAL EACH ELSE ELSEIF EMPTY ENCLOSED
ESCAPED EXCEPT EXISTS EXIT EXPLAIN FALSE FETCH FIRST_VALUE FLOAT FLOAT4 FLOAT8 FOR FORCE FOREIGN FROM FULLTEXT FUNCTION GENERATED GET
GRANT GROUP GROUPING GROUPS HAVING HIGH_PRIORITY HOUR_MICROSECOND HOUR_MINUTE HOUR_SECOND IF IGNORE IN INDEX INFILE INNER INOUT
INSENSITIVE INSERT INT INT1 INT2 INT3 INT4 INT8 INTEGER INTERSECT INTERVAL INTO IO_AFTER_GTIDS IO_BEFORE_GTIDS IS ITERATE JOIN
JSON_TABLE KEY KEYS KILL LAG LAST_VALUE LATERAL LEAD LEADING LEAVE LEFT LIKE LIMIT LINEAR LINES LOAD LOCALTIME LOCALTIMESTAMP LOCK
LONG LONGBLOB LONGTEXT LOOP LOW_PRIORITY MASTER_BIND MASTER_SSL_VERIFY_SERVER_CERT MATCH MAXVALUE MEDIUMBLOB MEDIUMINT MEDIUMTEXT
MIDDLEINT MINUTE_MICROSECOND MINUTE_SECOND MOD MODIFIES NATURAL NOT NO_WRITE_TO_BINLOG NTH_VALUE NTILE NULL NUMERIC OF ON OPTIMIZE
OPTIMIZER_COSTS OPTION OPTIONALLY OR ORDER OUT OUTER OUTFILE OVER PARTITION PERCENT_RANK PRECISION PRIMARY PROCEDURE PURGE RANGE RANK
READ READS READ_WRITE REAL RECURSIVE REFERENCES REGEXP RELEASE RENAME REPEAT REPLACE REQUIRE RESIGNAL RESTRICT RETURN REVOKE RIGHT
RLIKE ROW ROWS ROW_NUMBER SCHEMA SCHEMAS SECOND_MICROSECOND SELECT SENSITIVE SEPARATOR SET SHOW SIGNAL SMALLINT SPATIAL SPECIFIC SQL
SQLEXCEPTION SQLSTATE SQLWARNING SQL_BIG_RESULT SQL_CALC_FOUND_ROWS SQL_SMALL_RESULT SSL STARTING STORED STRAIGHT_JOIN SYSTEM TABLE
TERMINATED THEN TINYBLOB TINYINT TINYTEXT TO TRAILING TRIGGER TRUE UNDO UNION UNIQUE UNLOCK UNSIGNED UPDATE USAGE USE USING UTC_DATE
UTC_TIME UTC_TIMESTAMP VALUES VARBINARY VARCHAR VARCHARACTER VARYING VIRTUAL WHEN WHERE WHILE WINDOW WITH WRITE XOR YEAR_MONTH
ZEROFILL""".split())

TYPES = {
    "TINYINT", "SMALLINT", "MEDIUMINT", "INT", "INTEGER", "BIGINT", "BIT", "DECIMAL", "NUMERIC", "DEC", "FLOAT", "DOUBLE", "BOOL", "BOOLEAN",
    "CHAR", "VARCHAR", "BINARY", "VARBINARY", "TINYTEXT", "TEXT", "MEDIUMTEXT", "LONGTEXT", "TINYBLOB", "BLOB", "MEDIUMBLOB", "LONGBLOB",
    "ENUM", "SET", "DATE", "TIME", "DATETIME", "TIMESTAMP", "YEAR", "JSON"}


class Bad(Exception):
    pass


ESC = {"n": "\n", "t": "\t", "r": "\r", "b": "\b", "0": "\0", "Z": "\x1a"}


def lex(text):
    """-> list of (kind, value): id (quoted), word, str, num, bit, sym"""
    out, i, n = [], 0, len(text)
    while i < n:
        c = text[i]
        if c.isspace():
            i += 1
        elif c == "#" or (c == "-" and text[i:i + 2] == "--" and (i + 2 == n or text[i + 2].isspace())):
            j = text.find("\n", i)
            i = n if j < 0 else j
        elif text.startswith("/*", i):
            j = text.find("*/", i + 2)
            if j < 0:
                raise Bad("unclosed comment")
            i = j + 2
        elif c == "`":
            j, s = i + 1, ""
            while True:
                if j >= n:
                    raise Bad("unclosed `")
                if text[j] == "`":
                    if j + 1 < n and text[j + 1] == "`":
                        s += "`"; j += 2
                        continue
                    break
                s += text[j]; j += 1
            if not s:
                raise Bad("empty identifier")
            out.append(("id", s)); i = j + 1
        elif c in "'\"" or (c in "bB" and text[i + 1:i + 2] == "'"):
            bit = c in "bB"
            q = "'" if bit else c
            j, s = i + (2 if bit else 1), ""
            while True:
                if j >= n:
                    raise Bad("unclosed quote")
                d = text[j]
                if d == "\\":
                    if j + 1 >= n:
                        raise Bad("unclosed quote")
                    e = text[j + 1]
                    s += "\\" + e if e in "%_" else ESC.get(e, e)
                    j += 2
                elif d == q:
                    if j + 1 < n and text[j + 1] == q:
                        s += q; j += 2
                        continue
                    break
                else:
                    s += d; j += 1
            out.append(("bit" if bit else "str", s)); i = j + 1
        elif re.match(r"[0-9]|\.[0-9]", text[i:]):
            m = re.match(r"(\d+\.\d*|\.\d+|\d+)([eE][+-]?\d+)?", text[i:])
            e = i + m.end()
            if e < n and re.match(r"[A-Za-z_$\x80-\uffff]", text[e]):
                m2 = re.match(r"[0-9A-Za-z_$\x80-\U0010ffff]+", text[i:])
                out.append(("word", m2.group(0))); i += m2.end()
            else:
                out.append(("num", m.group(0))); i = e
        elif re.match(r"[A-Za-z_$\x80-\U0010ffff]", c):
            m = re.match(r"[0-9A-Za-z_$\x80-\U0010ffff]+", text[i:])
            out.append(("word", m.group(0))); i += m.end()
        elif c in "(),;=.*-+@:<>!":
            out.append(("sym", c)); i += 1
        else:
            raise Bad("unexpected character %r" % c)
    return out


def scaled(text):
    """value * 10^4 of a numeric literal, or None"""
    try:
        v = (Decimal(text.strip()) * 10000).quantize(Decimal(1), rounding=ROUND_HALF_UP)
    except (InvalidOperation, ValueError):
        return None
    return int(v) if abs(v) < 2 ** 31 - 1 else None


def literal(s):
    n = scaled(s) if re.fullmatch(r"\s*[+-]?(\d+\.?\d*|\.\d+)([eE][+-]?\d+)?\s*", s) else None
    return {"k": "lit", "s": s, "num": n is not None, "n": n or 0}


class P:
    def __init__(self, toks):
        self.t, self.i = toks, 0

    def peek(self, k=0):
        return self.t[self.i + k] if self.i + k < len(self.t) else ("end", "")

    def is_word(self, *ws):
        for k, w in enumerate(ws):
            t = self.peek(k)
            if t[0] != "word" or t[1].upper() != w:
                return False
        return True

    def take(self, *ws):
        if self.is_word(*ws):
            self.i += len(ws)
            return True
        return False

    def need(self, *ws):
        if not self.take(*ws):
            raise Bad("expected %s near %r" % (" ".join(ws), self.peek()[1]))

    def sym(self, c):
        if self.peek() == ("sym", c):
            self.i += 1
            return True
        return False

    def need_sym(self, c):
        if not self.sym(c):
            raise Bad("expected %s near %r" % (c, self.peek()[1]))

    def ident(self):
        k, v = self.peek()
        if k == "id":
            self.i += 1
            return v
        if k == "word" and v.upper() not in RESERVED:
            self.i += 1
            return v
        raise Bad("expected a name near %r" % v)

    def idents(self):
        self.need_sym("(")
        r = []
        while True:
            r.append(self.ident())
            if self.sym("("):
                if self.peek()[0] != "num":
                    raise Bad("prefix length")
                self.i += 1
                self.need_sym(")")
            if not (self.take("ASC") or self.take("DESC")):
                pass
            if not self.sym(","):
                break
        self.need_sym(")")
        return r

    def text_or_name(self):
        k, v = self.peek()
        if k in ("str", "id"):
            self.i += 1
            return v
        if k == "word" and (v.upper() not in RESERVED or v.upper() == "BINARY"):
            self.i += 1
            return v
        raise Bad("expected a name near %r" % v)

    # --- column definitions
    def column(self, name):
        k, v = self.peek()
        if k != "word" or v.upper() not in TYPES:
            raise Bad("unknown type %r" % v)
        self.i += 1
        ty = v.upper()
        if ty == "DOUBLE":
            self.take("PRECISION")
        c = dict(name=name, ty=ty, len=[], nul="", un=False, ai=False, vals=[], cs="", co="", o="new",
                 **{"def": {"k": "none", "s": "", "num": False, "n": 0}})
        pk = uq = False
        if ty in ("ENUM", "SET"):
            self.need_sym("(")
            while True:
                k, v = self.peek()
                if k != "str":
                    raise Bad("expected a value near %r" % v)
                c["vals"].append(v)
                self.i += 1
                if not self.sym(","):
                    break
            self.need_sym(")")
        elif self.peek() == ("sym", "("):
            if ty in ("DATE", "JSON", "BOOL", "BOOLEAN") or ("TEXT" in ty and ty != "TEXT") or ("BLOB" in ty and ty != "BLOB"):
                raise Bad("no length for %s" % ty)
            self.i += 1
            while True:
                k, v = self.peek()
                if k != "num" or not v.isdigit():
                    raise Bad("bad length")
                c["len"].append(int(v))
                self.i += 1
                if not self.sym(","):
                    break
            self.need_sym(")")
            if len(c["len"]) > (2 if ty in ("DECIMAL", "NUMERIC", "DEC", "FLOAT", "DOUBLE") else 1):
                raise Bad("bad length")
        # options of the type: only here
        while True:
            if self.take("UNSIGNED"):
                c["un"] = True
            elif self.take("SIGNED"):
                pass
            elif self.is_word("CHARACTER", "SET") or self.is_word("CHARSET"):
                if not self.take("CHARSET"):
                    self.need("CHARACTER", "SET")
                if c["cs"]:
                    raise Bad("two character sets")
                c["cs"] = self.text_or_name().lower()
            else:
                break
        while True:
            if self.take("NOT", "NULL"):
                c["nul"] = "NOT NULL"
            elif self.take("NULL"):
                c["nul"] = "NULL"
            elif self.take("AUTO_INCREMENT"):
                c["ai"] = True
            elif self.take("COLLATE"):
                c["co"] = self.text_or_name().lower()
            elif self.take("PRIMARY", "KEY"):
                pk = True
            elif self.take("UNIQUE"):
                self.take("KEY")
                uq = True
            elif self.take("COMMENT"):
                if self.peek()[0] != "str":
                    raise Bad("comment")
                self.i += 1
            elif self.take("DEFAULT"):
                k, v = self.peek()
                sign = ""
                if (k, v) in (("sym", "-"), ("sym", "+")):
                    sign = v if v == "-" else ""
                    self.i += 1
                    k, v = self.peek()
                    if k != "num":
                        raise Bad("bad default")
                if k in ("str", "num"):
                    c["def"] = literal(sign + v)
                    self.i += 1
                elif k == "bit":
                    if not re.fullmatch("[01]*", v):
                        raise Bad("bad bit literal")
                    c["def"] = literal(str(int(v or "0", 2)))
                    self.i += 1
                elif self.take("NULL"):
                    c["def"] = dict(k="null", s="", num=False, n=0)
                elif self.take("TRUE"):
                    c["def"] = literal("1")
                elif self.take("FALSE"):
                    c["def"] = literal("0")
                elif self.take("CURRENT_TIMESTAMP") or self.take("NOW"):
                    if self.sym("("):
                        self.need_sym(")")
                    c["def"] = dict(k="now", s="", num=False, n=0)
                else:
                    raise Bad("bad default near %r" % v)
            else:
                break
        return c, pk, uq

    def fk(self, name):
        cols = self.idents()
        self.need("REFERENCES")
        rt = self.ident()
        rcs = self.idents()
        if len(cols) != 1 or len(rcs) != 1:
            raise Bad("keys over several columns are not modelled")
        act = {"DELETE": "RESTRICT", "UPDATE": "RESTRICT"}
        seen = set()
        while self.is_word("ON"):
            self.i += 1
            what = self.peek()[1].upper()
            if what not in act or what in seen:
                raise Bad("bad action")
            seen.add(what)
            self.i += 1
            for a in (("CASCADE",), ("RESTRICT",), ("SET", "NULL"), ("NO", "ACTION"), ("SET", "DEFAULT")):
                if self.take(*a):
                    act[what] = " ".join(a)
                    break
            else:
                raise Bad("bad action near %r" % self.peek()[1])
        return dict(name=name, col=cols[0], rt=rt, rc=rcs[0], **{"del": act["DELETE"], "upd": act["UPDATE"]})

    def maybe_name(self):
        k, v = self.peek()
        if k == "id" or (k == "word" and v.upper() not in RESERVED):
            self.i += 1
            return v
        return ""

    def key(self):
        """an index definition, or None"""
        if self.take("PRIMARY", "KEY"):
            self.maybe_name()
            return dict(name="", kind="PRIMARY", cols=self.idents())
        if self.take("UNIQUE"):
            self.take("KEY") or self.take("INDEX")
            return dict(name=self.maybe_name(), kind="UNIQUE", cols=self.idents())
        if self.take("KEY") or self.take("INDEX"):
            return dict(name=self.maybe_name(), kind="KEY", cols=self.idents())
        return None

    def constraint(self):
        if self.is_word("CONSTRAINT") or self.is_word("FOREIGN", "KEY"):
            name = self.maybe_name() if self.take("CONSTRAINT") else ""
            if self.is_word("FOREIGN", "KEY"):
                self.need("FOREIGN", "KEY")
                name2 = self.maybe_name()
                return self.fk(name or name2)
            raise Bad("unsupported constraint")
        return None

    # --- statements
    def create(self):
        self.need("CREATE", "TABLE")
        self.take("IF", "NOT", "EXISTS")
        st = dict(t="create", name=self.ident(), cols=[], idx=[], fks=[], cs="", co="")
        self.need_sym("(")
        while True:
            x = self.key()
            if x:
                st["idx"].append(x)
            else:
                f = self.constraint()
                if f:
                    if not f["name"]:
                        raise Bad("server-chosen key names are not modelled")
                    st["fks"].append(f)
                else:
                    c, pk, uq = self.column(self.ident())
                    st["cols"].append(c)
                    if pk:
                        st["idx"].append(dict(name="", kind="PRIMARY", cols=[c["name"]]))
                    if uq:
                        st["idx"].append(dict(name="", kind="UNIQUE", cols=[c["name"]]))
            if not self.sym(","):
                break
        self.need_sym(")")
        opts = {}
        while self.peek()[0] == "word":
            self.take("DEFAULT")
            if self.take("CHARACTER", "SET") or self.take("CHARSET"):
                self.sym("=")
                st["cs"] = self.text_or_name().lower()
                opts["CHARSET"] = st["cs"]
            elif self.take("COLLATE"):
                self.sym("=")
                st["co"] = self.text_or_name().lower()
                opts["COLLATE"] = st["co"]
            else:
                k = self.peek()[1].upper()
                if k not in ("ENGINE", "AUTO_INCREMENT", "COMMENT", "ROW_FORMAT", "STATS_PERSISTENT", "KEY_BLOCK_SIZE", "AVG_ROW_LENGTH", "MAX_ROWS", "MIN_ROWS", "CHECKSUM", "PACK_KEYS", "DELAY_KEY_WRITE"):
                    raise Bad("unknown option %r" % k)
                self.i += 1
                self.sym("=")
                t, v = self.peek()
                if t not in ("word", "num", "str", "id") or (k == "COMMENT" and t != "str"):
                    raise Bad("bad option value")
                opts[k] = v
                self.i += 1
            self.sym(",")
        st["opts"] = opts
        return st

    def alter(self):
        self.need("ALTER", "TABLE")
        st = dict(t="alter", name=self.ident(), ops=[])
        while True:
            if self.take("ADD"):
                f = self.constraint()
                x = None if f else self.key()
                if f:
                    if not f["name"]:
                        raise Bad("server-chosen key names are not modelled")
                    st["ops"].append(dict(op="addfk", fk=f))
                elif x:
                    st["ops"].append(dict(op="addidx", idx=x))
                else:
                    self.take("COLUMN")
                    c, pk, uq = self.column(self.ident())
                    pos, after = "last", ""
                    if self.take("FIRST"):
                        pos = "first"
                    elif self.take("AFTER"):
                        pos, after = "after", self.ident()
                    st["ops"].append(dict(op="addcol", **{"def": c}, pos=pos, after=after))
                    if pk or uq:
                        st["ops"].append(dict(op="addidx", idx=dict(name="", kind="PRIMARY" if pk else "UNIQUE", cols=[c["name"]])))
            elif self.is_word("CHANGE") or self.is_word("MODIFY"):
                chg = self.take("CHANGE")
                if not chg:
                    self.need("MODIFY")
                self.take("COLUMN")
                old = self.ident()
                c, pk, uq = self.column(self.ident() if chg else old)
                if self.is_word("FIRST") or self.is_word("AFTER"):
                    raise Bad("moving columns is not modelled")
                st["ops"].append(dict(op="change", col=old, **{"def": c}))
                if pk or uq:
                    st["ops"].append(dict(op="addidx", idx=dict(name="", kind="PRIMARY" if pk else "UNIQUE", cols=[c["name"]])))
            elif self.take("DROP"):
                if self.take("PRIMARY", "KEY"):
                    st["ops"].append(dict(op="droppk"))
                elif self.take("FOREIGN", "KEY"):
                    st["ops"].append(dict(op="dropfk", name=self.ident()))
                elif self.take("KEY") or self.take("INDEX"):
                    st["ops"].append(dict(op="dropidx", name=self.ident()))
                elif self.take("CONSTRAINT"):
                    st["ops"].append(dict(op="dropfk", name=self.ident()))
                else:
                    self.take("COLUMN")
                    st["ops"].append(dict(op="dropcol", col=self.ident()))
            else:
                raise Bad("unknown part of ALTER TABLE near %r" % self.peek()[1])
            if not self.sym(","):
                break
        return st

    def value(self):
        """-> None | string (what the server would store as text)"""
        k, v = self.peek()
        sign = ""
        if (k, v) in (("sym", "-"), ("sym", "+")):
            self.i += 1
            sign = v if v == "-" else ""
            k, v = self.peek()
            if k != "num":
                raise Bad("bad value")
        if k in ("str", "num"):
            self.i += 1
            return sign + v
        if self.take("NULL"):
            return None
        if self.take("TRUE"):
            return "1"
        if self.take("FALSE"):
            return "0"
        raise Bad("bad value near %r" % v)

    def insert(self):
        self.need("INSERT")
        self.need("INTO")
        st = dict(t="row", op="insert", name=self.ident(), cols=self.idents(), rows=[])
        if not (self.take("VALUES") or self.take("VALUE")):
            raise Bad("expected VALUES")
        while True:
            self.need_sym("(")
            row = []
            while True:
                row.append(self.value())
                if not self.sym(","):
                    break
            self.need_sym(")")
            if len(row) != len(st["cols"]):
                raise Bad("1136: column count")
            st["rows"].append(row)
            if not self.sym(","):
                break
        return st

    def where(self):
        self.need("WHERE")
        col = self.ident()
        self.need_sym("=")
        return col, self.value()

    def update(self):
        self.need("UPDATE")
        st = dict(t="row", op="update", name=self.ident(), cols=[], vals=[])
        self.need("SET")
        while True:
            st["cols"].append(self.ident())
            self.need_sym("=")
            st["vals"].append(self.value())
            if not self.sym(","):
                break
        st["wcol"], st["wval"] = self.where()
        return st

    def delete(self):
        self.need("DELETE", "FROM")
        st = dict(t="row", op="delete", name=self.ident(), cols=[])
        st["wcol"], st["wval"] = self.where()
        return st

    def statement(self):
        if self.is_word("CREATE"):
            st = self.create()
        elif self.is_word("ALTER"):
            st = self.alter()
        elif self.is_word("INSERT"):
            st = self.insert()
        elif self.is_word("UPDATE"):
            st = self.update()
        elif self.is_word("DELETE"):
            st = self.delete()
        elif self.take("DROP", "TABLE"):
            self.take("IF", "EXISTS")
            st = dict(t="drop", name=self.ident())
        elif self.take("SET"):
            self.take("SESSION")
            if self.peek()[1].upper() != "FOREIGN_KEY_CHECKS":
                raise Bad("unknown variable")
            self.i += 1
            self.need_sym("=")
            k, v = self.peek()
            if v.upper() not in ("0", "1", "ON", "OFF"):
                raise Bad("bad value")
            self.i += 1
            st = dict(t="fkc", on=v.upper() in ("1", "ON"))
        else:
            raise Bad("unknown statement")
        self.sym(";")
        if self.peek()[0] != "end":
            raise Bad("trailing text: %r" % (self.peek()[1],))
        return st


def parse(text):
    """one statement as sent to the server -> abstract statement"""
    try:
        return P(lex(text)).statement()
    except Bad as e:
        return dict(t="bad", why=str(e))


def statements(text):
    """the statements of a source, comments left out"""
    toks, part, out = lex(text), [], []
    for t in toks:
        if t == ("sym", ";") or t[0] == "end":
            if part:
                out.append(P(part + [("end", "")]).statement())
            part = []
        else:
            part.append(t)
    return out
