"""The part of SQLite that zigpy uses, executed by the engine; and an asynchronous connection over it or the real one.

`connect(E)` makes zigpy.appdb use in-memory databases: with real values they are databases of the real sqlite3 module,
with symbolic values those of `MiniDB`, an interpreter of the SQL statements of the code under test over rows of
possibly symbolic values.  Samples of every path are run on the real one, which compares the two.
"""

import json
import re
import sqlite3

TOKEN = re.compile(r"\s+|--[^\n]*|(?P<str>'(?:[^']|'')*')|(?P<num>\d+(?:\.\d+)?)|(?P<id>[A-Za-z_][A-Za-z_0-9]*)|(?P<par>:[A-Za-z_]\w*|\?)|(?P<op><>|!=|==|>=|<=|\|\||[-+*/%(),.=<>;])")
PARSED = {}


def unsupported(what):
    from symx.core import Leak

    raise Leak(f"SQL not modelled: {what}")


class Parser:
    """A statement becomes a tuple; expressions become nested tuples."""

    def __init__(self, text):
        self.text, self.toks, self.i, self.npar = text, [], 0, 0
        pos = 0
        while pos < len(text):
            m = TOKEN.match(text, pos)
            if m is None:
                unsupported(text[pos:pos + 20])
            pos = m.end()
            if m.lastgroup is not None:
                v = m.group(m.lastgroup)
                self.toks.append((m.lastgroup, v.lower() if m.lastgroup == "id" else v, v))

    def peek(self, *words, k=0):
        j = self.i + k
        return j < len(self.toks) and self.toks[j][0] in ("id", "op") and self.toks[j][1] in words

    def accept(self, *words):
        """All the words, in sequence."""
        if all(self.peek(w, k=k) for k, w in enumerate(words)):
            self.i += len(words)
            return True
        return False

    def expect(self, *words):
        if not self.accept(*words):
            unsupported(f"expected {' '.join(words)} in {self.text!r}")

    def name(self):
        if self.i >= len(self.toks) or self.toks[self.i][0] not in ("id", "str"):
            unsupported(f"name expected in {self.text!r}")
        self.i += 1
        return self.toks[self.i - 1][2].strip("'")

    def names(self):
        self.expect("(")
        out = [self.name()]
        while self.accept(","):
            out.append(self.name())
        self.expect(")")
        return out

    def statement(self):
        while self.accept(";"):
            pass
        if self.i == len(self.toks):
            return ("nothing",)
        s = self._statement()
        while self.accept(";"):
            pass
        if self.i != len(self.toks):
            unsupported(f"rest of {self.text!r}: {self.toks[self.i:][:3]}")
        return s

    def _statement(self):
        if self.accept("pragma"):
            name = self.name().lower()
            value = None
            if self.accept("="):
                value = self.toks[self.i][2]
                self.i += 1
            return ("pragma", name, value)
        if self.accept("drop"):
            kind = self.name().lower()
            missing = self.accept("if", "exists")
            return ("drop", kind, self.name(), missing)
        if self.accept("create", "table"):
            exists = self.accept("if", "not", "exists")
            return self.table(self.name(), exists)
        if self.peek("create"):
            self.accept("create")
            unique = self.accept("unique")
            self.expect("index")
            exists = self.accept("if", "not", "exists")
            name = self.name()
            self.expect("on")
            return ("index", name, self.name(), self.names(), unique, exists)
        for w, what in (("begin", "begin"), ("commit", "commit"), ("end", "commit"), ("rollback", "rollback")):
            if self.accept(w):
                self.accept("deferred") or self.accept("immediate") or self.accept("exclusive")
                self.accept("transaction")
                return (what,)
        if self.peek("insert", "replace"):
            action = "abort"
            if self.accept("replace"):
                action = "replace"
            else:
                self.expect("insert")
                if self.accept("or"):
                    action = self.name().lower()
            self.expect("into")
            return self.insert(self.name(), action)
        if self.accept("update"):
            table = self.name()
            self.expect("set")
            sets = self.sets()
            return ("update", table, sets, self.where())
        if self.accept("delete", "from"):
            table = self.name()
            return ("delete", table, self.where())
        if self.accept("select"):
            return self.select()
        unsupported(self.text)

    def table(self, name, exists):
        cols, fks, uniques = [], [], []
        self.expect("(")
        while True:
            if self.accept("foreign", "key"):
                fks.append((self.names(), *self.references()))
            elif self.accept("unique") or self.accept("primary", "key"):
                uniques.append(self.names())
            else:
                col = dict(name=self.name(), type="", notnull=False, auto=False, default=None)
                while not self.peek(",", ")"):
                    if self.accept("not", "null"):
                        col["notnull"] = True
                    elif self.accept("primary", "key"):
                        if col["type"].lower() != "integer":
                            unsupported("primary keys other than row identifiers")
                        col["auto"] = True
                    elif self.accept("autoincrement"):
                        pass
                    elif self.accept("unique"):
                        uniques.append([col["name"]])
                    elif self.accept("default"):
                        col["default"] = self.primary()
                    elif self.peek("references"):
                        fks.append(([col["name"]], *self.references()))
                    else:
                        col["type"] = (col["type"] + " " + self.name()).strip()
                cols.append(col)
            if self.accept(")"):
                return ("table", name, cols, fks, uniques, exists)
            self.expect(",")

    def references(self):
        self.expect("references")
        table, names = self.name(), self.names()
        action = "no action"
        while self.accept("on"):
            what = self.name().lower()
            act = self.name().lower()
            if act in ("no", "set"):
                act += " " + self.name().lower()
            if what == "delete":
                action = act
            elif what != "update":
                unsupported("on " + what)
        return table, names, action

    def sets(self):
        out = []
        while True:
            n = self.name()
            self.expect("=")
            out.append((n, self.expr()))
            if not self.accept(","):
                return out

    def where(self):
        return self.expr() if self.accept("where") else None

    def insert(self, table, action):
        cols = self.names() if self.peek("(") else None
        if self.accept("select"):
            return ("insert", table, cols, self.select(), action, [])
        self.expect("values")
        rows = []
        while True:
            self.expect("(")
            row = [self.expr()]
            while self.accept(","):
                row.append(self.expr())
            self.expect(")")
            rows.append(row)
            if not self.accept(","):
                break
        upserts = []
        while self.accept("on", "conflict"):
            target = self.names() if self.peek("(") else None
            if self.accept("do", "nothing"):
                upserts.append((target, None, None))
            else:
                self.expect("do", "update", "set")
                sets = self.sets()
                upserts.append((target, sets, self.where()))
        return ("insert", table, cols, ("values", rows), action, upserts)

    def select(self):
        what = []
        while True:
            what.append(("*",) if self.accept("*") else self.expr())
            if self.accept("as"):
                self.name()
            if not self.accept(","):
                break
        table = self.name() if self.accept("from") else None
        where = self.where()
        order = []
        if self.accept("order", "by"):
            while True:
                e = self.expr()
                order.append((e, bool(self.accept("desc"))))
                self.accept("asc")
                if not self.accept(","):
                    break
        limit = self.expr() if self.accept("limit") else None
        return ("select", what, table, where, order, limit)

    # -- expressions -------------------------------------------------------
    def expr(self):
        e = self.conj()
        while self.accept("or"):
            e = ("or", e, self.conj())
        return e

    def conj(self):
        e = self.neg()
        while self.accept("and"):
            e = ("and", e, self.neg())
        return e

    def neg(self):
        return ("not", self.neg()) if self.accept("not") else self.comparison()

    def comparison(self):
        e = self.sum()
        while True:
            if self.peek("=", "==", "!=", "<>", "<", ">", "<=", ">="):
                op = self.toks[self.i][1]
                self.i += 1
                e = ("cmp", {"==": "=", "<>": "!="}.get(op, op), e, self.sum())
            elif self.accept("is"):
                no = self.accept("not")
                e = ("is", e, self.sum())
                e = ("not", e) if no else e
            elif self.peek("in") or self.peek("not") and self.peek("in", k=1):
                no = self.accept("not")
                self.expect("in", "(")
                items = [self.expr()]
                while self.accept(","):
                    items.append(self.expr())
                self.expect(")")
                e = ("in", e, items)
                e = ("not", e) if no else e
            elif self.accept("between"):
                lo = self.sum()
                self.expect("and")
                e = ("and", ("cmp", ">=", e, lo), ("cmp", "<=", e, self.sum()))
            else:
                return e

    def sum(self):
        e = self.term()
        while self.peek("+", "-"):
            op = self.toks[self.i][1]
            self.i += 1
            e = ("arith", op, e, self.term())
        return e

    def term(self):
        e = self.primary()
        while self.peek("*", "/", "%"):
            op = self.toks[self.i][1]
            self.i += 1
            e = ("arith", op, e, self.primary())
        return e

    def primary(self):
        if self.accept("("):
            e = self.expr()
            self.expect(")")
            return e
        if self.accept("-"):
            return ("arith", "-", ("lit", 0), self.primary())
        if self.i >= len(self.toks):
            unsupported(self.text)
        kind, low, v = self.toks[self.i]
        self.i += 1
        if kind == "num":
            return ("lit", float(v) if "." in v else int(v))
        if kind == "str":
            return ("lit", v[1:-1].replace("''", "'"))
        if kind == "par":
            if v == "?":
                self.npar += 1
                return ("arg", self.npar - 1)
            return ("named", v[1:])
        if kind != "id":
            unsupported(f"{v} in {self.text!r}")
        if low == "null":
            return ("lit", None)
        if self.accept("("):
            args = []
            if self.accept("*"):
                args = [("*",)]
            elif not self.peek(")"):
                args.append(self.expr())
                while self.accept(","):
                    args.append(self.expr())
            self.expect(")")
            return ("call", low, args)
        if self.accept("."):
            return ("col", low, self.name())
        return ("col", None, v)


def parse(text):
    if text not in PARSED:
        p = Parser(text)
        s = p.statement()
        PARSED[text] = (s, p.npar)
    return PARSED[text]


class Table:
    def __init__(self, name, cols, fks, uniques):
        self.name, self.cols, self.fks, self.uniques = name, cols, fks, list(uniques)
        self.names = [c["name"].lower() for c in cols]
        self.rows, self.next = [], 1
        self.auto = next((i for i, c in enumerate(cols) if c["auto"]), None)

    def copy(self):
        t = Table.__new__(Table)
        t.__dict__.update(self.__dict__)
        t.rows, t.uniques = list(self.rows), list(self.uniques)
        return t

    def index(self, name):
        if name.lower() not in self.names:
            raise sqlite3.OperationalError(f"no such column: {name}")
        return self.names.index(name.lower())


def kind(v):
    if v is None:
        return 0
    if isinstance(v, (int, float)):
        return 1
    if isinstance(v, str):
        return 2
    if isinstance(v, bytes):
        return 3
    unsupported(f"value {type(v)}")


def same(a, b):
    return kind(a) == kind(b) and a == b


def affinity(decl, v):
    d = decl.upper()
    k = kind(v)
    if "INT" in d:
        if k == 2 and re.fullmatch(r"\s*[-+]?\d+\s*", v):
            return int(v)
        if type(v) is float and v == int(v):
            return int(v)
        return v
    if "CHAR" in d or "CLOB" in d or "TEXT" in d:
        return str(v) if k == 1 else v
    if "BLOB" in d or not d or k != 2:
        return v
    # numeric
    if re.fullmatch(r"\s*[-+]?(\d+(\.\d*)?|\.\d+)(e[-+]?\d+)?\s*", v, re.I):
        unsupported("numeric text")
    return v


class Storage:
    """What survives a crash."""

    def __init__(self):
        self.tables, self.version = {}, 0


class MiniDB:
    """The interface of sqlite3.Connection, as far as it is used."""

    def __init__(self, storage, adapters, converters, isolation_level="", detect_types=0):
        self.storage, self.adapters, self.converters = storage, adapters, converters
        self.isolation_level, self.detect = isolation_level, detect_types
        self.tables = {n: t.copy() for n, t in storage.tables.items()}
        self.version = storage.version
        self.in_transaction = False
        self.fk = False
        self.closed = False

    # -- transactions ------------------------------------------------------
    def _publish(self):
        self.storage.tables = {n: t.copy() for n, t in self.tables.items()}
        self.storage.version = self.version

    def _begin(self):
        if self.in_transaction:
            raise sqlite3.OperationalError("cannot start a transaction within a transaction")
        self.in_transaction = True

    def commit(self):
        if self.in_transaction:
            self.in_transaction = False
            self._publish()

    def rollback(self):
        if self.in_transaction:
            self.in_transaction = False
            self.tables = {n: t.copy() for n, t in self.storage.tables.items()}
            self.version = self.storage.version

    def close(self):
        self.rollback()
        self.closed = True

    # -- statements --------------------------------------------------------
    def execute(self, text, params=()):
        if self.closed:
            raise sqlite3.ProgrammingError("Cannot operate on a closed database.")
        stmt, npar = parse(text)
        if isinstance(params, dict):
            params = {k: self.adapt(v) for k, v in params.items()}
        else:
            params = [self.adapt(v) for v in params]
            if len(params) != npar:
                raise sqlite3.ProgrammingError(f"Incorrect number of bindings supplied. The current statement uses {npar}, and there are {len(params)} supplied.")
        if stmt[0] in ("insert", "update", "delete") and self.isolation_level is not None and not self.in_transaction:
            self._begin()
        before = {n: (t, t.rows, t.next) for n, t in self.tables.items()} if stmt[0] in ("insert", "update", "delete") else None
        if before is not None:
            for t in self.tables.values():
                t.rows = list(t.rows)
        try:
            rows = getattr(self, "do_" + stmt[0])(params, *stmt[1:]) or []
        except sqlite3.Error:
            if before is not None:
                for t, r, n in before.values():
                    t.rows, t.next = r, n
            raise
        if not self.in_transaction:
            self._publish()
        return Cursor(rows)

    def executemany(self, text, rows):
        for r in rows:
            self.execute(text, r)
        return Cursor([])

    def adapt(self, v):
        a = self.adapters.get(type(v))
        if a is not None:
            v = a(v)
        if v is None or type(v) in (int, float, str, bytes):
            pass
        elif isinstance(v, bool):
            v = 1 if v else 0
        elif isinstance(v, int):
            v = int(v)
        elif isinstance(v, float):
            v = float(v)
        elif isinstance(v, str):
            v = str(v)
        elif isinstance(v, (bytes, bytearray)):
            v = bytes(v)
        else:
            raise sqlite3.ProgrammingError(f"Error binding parameter: type '{type(v).__name__}' is not supported")
        if type(v) is float and v != v:
            return None
        if isinstance(v, int) and not -(1 << 63) <= v < 1 << 63:
            raise OverflowError("Python int too large to convert to SQLite INTEGER")
        return v

    def table(self, name):
        for n, t in self.tables.items():
            if n.lower() == name.lower():
                return t
        raise sqlite3.OperationalError(f"no such table: {name}")

    def do_nothing(self, params):
        pass

    def do_pragma(self, params, name, value):
        if name == "user_version":
            if value is None:
                return [(self.version,)]
            self.version = int(value)
        elif name == "foreign_keys":
            if value is None:
                return [(int(self.fk),)]
            if not self.in_transaction:
                self.fk = value.lower() in ("on", "1", "true", "yes")
        elif name == "integrity_check":
            return [("ok",)]
        elif name == "foreign_key_check":
            return [(t.name, row[0], fk[1], k) for t in self.tables.values() for row in t.rows for k, fk in enumerate(t.fks) if not self.has_parent(t, row, fk)]
        elif name not in ("journal_mode", "synchronous", "temp_store", "wal_checkpoint", "busy_timeout", "cache_size"):
            unsupported("pragma " + name)
        return []

    def do_drop(self, params, what, name, missing):
        if what != "table":
            unsupported("drop " + what)
        for n in list(self.tables):
            if n.lower() == name.lower():
                if self.fk:
                    self.delete_rows(self.tables[n], list(self.tables[n].rows))
                del self.tables[n]
                return
        if not missing:
            raise sqlite3.OperationalError(f"no such table: {name}")

    def do_table(self, params, name, cols, fks, uniques, exists):
        if any(n.lower() == name.lower() for n in self.tables):
            if exists:
                return
            raise sqlite3.OperationalError(f"table {name} already exists")
        self.tables[name] = Table(name, cols, fks, uniques)

    def do_index(self, params, name, table, cols, unique, exists):
        t = self.table(table)
        if unique and cols not in t.uniques:
            t.uniques.append(cols)

    def do_begin(self, params):
        self._begin()

    def do_commit(self, params):
        if not self.in_transaction:
            raise sqlite3.OperationalError("cannot commit - no transaction is active")
        self.commit()

    def do_rollback(self, params):
        if not self.in_transaction:
            raise sqlite3.OperationalError("cannot rollback - no transaction is active")
        self.rollback()

    # -- rows --------------------------------------------------------------
    def has_parent(self, t, row, fk):
        vals = [row[1][t.index(c)] for c in fk[0]]
        if any(v is None for v in vals):
            return True
        p = self.table(fk[1])
        idx = [p.index(c) for c in fk[2]]
        return any(all(same(r[1][i], v) for i, v in zip(idx, vals)) for r in p.rows)

    def delete_rows(self, t, rows):
        for row in rows:
            t.rows = [r for r in t.rows if r is not row]
            if not self.fk:
                continue
            for child in list(self.tables.values()):
                for fk in child.fks:
                    if fk[1].lower() != t.name.lower():
                        continue
                    vals = [row[1][t.index(c)] for c in fk[2]]
                    idx = [child.index(c) for c in fk[0]]
                    kids = [r for r in child.rows if all(same(r[1][i], v) for i, v in zip(idx, vals))]
                    if not kids:
                        continue
                    if fk[3] == "cascade":
                        self.delete_rows(child, kids)
                    elif fk[3] == "no action" or fk[3] == "restrict":
                        raise sqlite3.IntegrityError("FOREIGN KEY constraint failed")
                    else:
                        unsupported("on delete " + fk[3])

    def conflict(self, t, vals, uniq, skip=None):
        idx = [t.index(c) for c in uniq]
        if any(vals[i] is None for i in idx):
            return None
        return next((r for r in t.rows if r is not skip and all(same(r[1][i], vals[i]) for i in idx)), None)

    def checked(self, t, vals):
        vals = tuple(affinity(c["type"], v) for c, v in zip(t.cols, vals))
        for c, v in zip(t.cols, vals):
            if c["notnull"] and v is None:
                raise sqlite3.IntegrityError(f"NOT NULL constraint failed: {t.name}.{c['name']}")
        return vals

    def fk_check(self, t, row):
        if self.fk and not all(self.has_parent(t, row, fk) for fk in t.fks):
            raise sqlite3.IntegrityError("FOREIGN KEY constraint failed")

    def do_insert(self, params, table, cols, source, action, upserts):
        t = self.table(table)
        if source[0] == "values":
            rows = [[self.ev(e, params, []) for e in r] for r in source[1]]
        else:
            rows = self.do_select(params, *source[1:], raw=True)
        idx = list(range(len(t.cols))) if cols is None else [t.index(c) for c in cols]
        for given in rows:
            if len(given) != len(idx):
                raise sqlite3.OperationalError(f"table {t.name} has {len(idx)} columns but {len(given)} values were supplied")
            vals = [None if c["default"] is None else self.ev(c["default"], params, []) for c in t.cols]
            for i, v in zip(idx, given):
                vals[i] = v
            rowid = t.next
            if t.auto is not None:
                if vals[t.auto] is None:
                    vals[t.auto] = rowid
                else:
                    rowid = vals[t.auto]
            try:
                vals = self.checked(t, vals)
            except sqlite3.IntegrityError:
                if action == "ignore":
                    continue
                raise
            uniques = t.uniques if t.auto is None else [[t.cols[t.auto]["name"]], *t.uniques]
            done = False
            for u in uniques:
                old = self.conflict(t, vals, u)
                if old is None:
                    continue
                rule = next((x for x in upserts if x[0] is None or sorted(n.lower() for n in x[0]) == sorted(n.lower() for n in u)), None)
                if rule is not None:
                    if rule[1] is not None:
                        scope = [(t, old[1], None), (t, vals, "excluded")]
                        if rule[2] is None or self.true(self.ev(rule[2], params, scope)):
                            self.change(t, old, [(n, self.ev(e, params, scope)) for n, e in rule[1]])
                    done = True
                elif action == "ignore":
                    done = True
                elif action == "replace":
                    self.delete_rows(t, [old])
                else:
                    raise sqlite3.IntegrityError(f"UNIQUE constraint failed: {', '.join(f'{t.name}.{c}' for c in u)}")
                if done:
                    break
            if done:
                continue
            for x in upserts:
                if x[0] is not None and not any(sorted(n.lower() for n in x[0]) == sorted(n.lower() for n in u) for u in uniques):
                    raise sqlite3.OperationalError("ON CONFLICT clause does not match any PRIMARY KEY or UNIQUE constraint")
            row = (rowid, vals)
            t.rows.append(row)
            t.next = (t.next if t.next > rowid else rowid) + 1 if rowid is not t.next else t.next + 1
            self.fk_check(t, row)
        return []

    def change(self, t, row, sets):
        vals = list(row[1])
        for n, v in sets:
            vals[t.index(n)] = v
        vals = self.checked(t, vals)
        for u in t.uniques:
            if self.conflict(t, vals, u, skip=row) is not None:
                raise sqlite3.IntegrityError(f"UNIQUE constraint failed: {t.name}")
        touched = {n.lower() for n, _ in sets}
        for child in self.tables.values():
            for fk in child.fks:
                if fk[1].lower() == t.name.lower() and any(c.lower() in touched for c in fk[2]):
                    unsupported("updates of referenced columns")
        new = (row[0], vals)
        t.rows = [new if r is row else r for r in t.rows]
        if any(c.lower() in touched for fk in t.fks for c in fk[0]):
            self.fk_check(t, new)

    def matching(self, t, where, params):
        return [r for r in t.rows if where is None or self.true(self.ev(where, params, [(t, r[1], None)]))]

    def do_update(self, params, table, sets, where):
        t = self.table(table)
        for r in self.matching(t, where, params):
            self.change(t, r, [(n, self.ev(e, params, [(t, r[1], None)])) for n, e in sets])

    def do_delete(self, params, table, where):
        t = self.table(table)
        self.delete_rows(t, self.matching(t, where, params))

    def do_select(self, params, what, table, where, order, limit, raw=False):
        if table is None:
            return [tuple(self.ev(e, params, []) for e in what)]
        if table.lower() == "sqlite_master":
            t = Table("sqlite_master", [dict(name=n, type="", auto=False) for n in ("type", "name", "tbl_name")], [], [])
            t.rows = [(0, ("table", n, n)) for n in self.tables]
            if any(x.auto is not None for x in self.tables.values()):
                t.rows.append((0, ("table", "sqlite_sequence", "sqlite_sequence")))
        else:
            t = self.table(table)
        rows = self.matching(t, where, params)
        for e, desc in reversed(order):
            rows = sorted(rows, key=lambda r: self.ev(e, params, [(t, r[1], None)]), reverse=desc)
        if len(what) == 1 and what[0][0] == "call" and what[0][1] in ("count", "max", "min", "sum"):
            f = what[0][1]
            if what[0][2] == [("*",)]:
                return [(len(rows),)]
            vals = [self.ev(what[0][2][0], params, [(t, r[1], None)]) for r in rows]
            vals = [v for v in vals if v is not None]
            return [(len(vals) if f == "count" else None if not vals else {"max": max, "min": min, "sum": sum}[f](vals),)]
        if limit is not None:
            rows = rows[: self.ev(limit, params, [])]
        out = []
        for r in rows:
            vals = []
            for e in what:
                if e[0] == "*":
                    vals.extend(v if raw else self.convert(c, v) for c, v in zip(t.cols, r[1]))
                elif e[0] == "col":
                    i = t.index(e[2])
                    vals.append(r[1][i] if raw else self.convert(t.cols[i], r[1][i]))
                else:
                    vals.append(self.ev(e, params, [(t, r[1], None)]))
            out.append(tuple(vals))
        return out

    def convert(self, col, v):
        if not self.detect or not col["type"] or v is None:
            return v
        c = self.converters.get(re.split(r"[ (]", col["type"])[0].lower())
        if c is None:
            return v
        if isinstance(v, str):
            v = v.encode()
        elif not isinstance(v, bytes):
            v = str(v).encode()
        return c(v)

    # -- expressions -------------------------------------------------------
    @staticmethod
    def true(v):
        return v is not None and v is not False and bool(v)

    def ev(self, e, params, scope):
        op = e[0]
        if op == "lit":
            return e[1]
        if op == "arg":
            return params[e[1]]
        if op == "named":
            if e[1] not in params:
                raise sqlite3.ProgrammingError(f"You did not supply a value for binding parameter :{e[1]}.")
            return params[e[1]]
        if op == "col":
            for t, vals, alias in scope:
                if e[1] is None and alias is None or e[1] is not None and e[1] == (alias or t.name.lower()):
                    return vals[t.index(e[2])]
            raise sqlite3.OperationalError(f"no such column: {e[2]}")
        if op in ("and", "or"):
            a = self.ev(e[1], params, scope)
            if a is not None and self.true(a) == (op == "or"):
                return op == "or"
            b = self.ev(e[2], params, scope)
            if b is not None and self.true(b) == (op == "or"):
                return op == "or"
            return None if a is None or b is None else op == "and"
        if op == "not":
            a = self.ev(e[1], params, scope)
            return None if a is None else not self.true(a)
        if op == "is":
            return same(self.ev(e[1], params, scope), self.ev(e[2], params, scope))
        if op == "in":
            a = self.ev(e[1], params, scope)
            vals = [self.ev(x, params, scope) for x in e[2]]
            if a is None:
                return None
            return True if any(same(a, v) for v in vals) else None if None in vals else False
        if op == "cmp":
            a, b = self.ev(e[2], params, scope), self.ev(e[3], params, scope)
            if a is None or b is None:
                return None
            ka, kb = kind(a), kind(b)
            if e[1] == "=":
                return ka == kb and a == b
            if e[1] == "!=":
                return ka != kb or a != b
            if ka != kb:
                a, b = ka, kb
            return a < b if e[1] == "<" else a > b if e[1] == ">" else a <= b if e[1] == "<=" else a >= b
        if op == "arith":
            a, b = self.ev(e[2], params, scope), self.ev(e[3], params, scope)
            if a is None or b is None:
                return None
            if kind(a) != 1 or kind(b) != 1:
                unsupported("arithmetic on text")
            if e[1] == "/":
                if isinstance(a, int) and isinstance(b, int):
                    unsupported("integer division")
                return a / b
            return a + b if e[1] == "+" else a - b if e[1] == "-" else a * b if e[1] == "*" else unsupported("%")
        if op == "call":
            args = [self.ev(x, params, scope) for x in e[2]]
            if e[1] == "json_extract":
                v = json.loads(args[0])
                for part in args[1].split(".")[1:]:
                    v = v.get(part) if isinstance(v, dict) else None
                if isinstance(v, (dict, list)):
                    unsupported("json")
                return v
            if e[1] == "coalesce" or e[1] == "ifnull":
                return next((a for a in args if a is not None), None)
            if e[1] == "abs":
                return None if args[0] is None else abs(args[0])
            if e[1] in ("max", "min") and len(args) > 1:
                return None if None in args else max(args) if e[1] == "max" else min(args)
            unsupported("function " + e[1])
        unsupported(str(op))


class Cursor:
    def __init__(self, rows):
        self.rows = list(rows)

    def fetchone(self):
        return self.rows.pop(0) if self.rows else None

    def fetchall(self):
        rows, self.rows = self.rows, []
        return rows


class Step:
    """Suspends its task once, like the answer of another thread."""

    def __await__(self):
        yield


class Result:
    """What aiosqlite returns: to be awaited or used as a context."""

    def __init__(self, coro):
        self.coro = coro

    def __await__(self):
        return self.coro.__await__()

    async def __aenter__(self):
        self.cursor = await self.coro
        return self.cursor

    async def __aexit__(self, *a):
        await self.cursor.close()


class AioCursor:
    def __init__(self, cursor):
        self.cursor = cursor

    def __aiter__(self):
        return self

    async def __anext__(self):
        await Step()
        row = self.cursor.fetchone()
        if row is None:
            raise StopAsyncIteration
        return row

    async def fetchone(self):
        await Step()
        return self.cursor.fetchone()

    async def fetchall(self):
        await Step()
        return self.cursor.fetchall()

    async def close(self):
        pass


class Connection:
    """The interface of aiosqlite.Connection, without its thread."""

    def __init__(self, sql, connector):
        self.sql, self.connector, self.db = sql, connector, None
        sql.conns.append(self)

    def __await__(self):
        return self._connect().__await__()

    async def __aenter__(self):
        return await self

    async def __aexit__(self, *a):
        await self.close()

    async def _connect(self):
        await Step()
        self.db = self.connector()
        return self

    async def _run(self, what, f, *a):
        await Step()
        self.sql.before(self, what, a)
        r = f(*a)
        self.sql.count += 1
        return r

    async def _execute(self, f, *a):
        await Step()
        return f(*a)

    async def _cursor(self, what, *a):
        r = await self._run(what, getattr(self.db, what), *a)
        return AioCursor(Cursor(r.fetchall()))

    def execute(self, text, params=()):
        return Result(self._cursor("execute", text, params))

    def executemany(self, text, rows):
        return Result(self._many(text, rows))

    async def _many(self, text, rows):
        """One by one, so that anything can happen between them, within a transaction as executemany does."""
        for r in rows:
            await self._run("execute", self.db.execute, text, r)
        return AioCursor(Cursor([]))

    async def commit(self):
        await self._run("commit", self.db.commit)

    async def rollback(self):
        await self._run("rollback", self.db.rollback)

    async def close(self):
        if self.db is not None:
            await self._run("close", self.db.close)

    def join(self):
        pass

    @property
    def in_transaction(self):
        return self.db.in_transaction

    @property
    def isolation_level(self):
        return self.db.isolation_level

    @isolation_level.setter
    def isolation_level(self, v):
        self.db.isolation_level = v


class Crash(Exception):
    """Nothing happens to the database any more."""


class Sql:
    """The databases of a path, by file name."""

    def __init__(self, E):
        import zigpy.appdb as appdb

        self.E, self.count, self.hook, self.dead = E, 0, None, set()
        self.files, self.adapters, self.converters, self.open = {}, {}, {}, []
        self.conns = []
        E.patch(appdb.aiosqlite, "Connection", lambda connector, iter_chunk_size=64, **kw: Connection(self, connector))
        E.patch(appdb.aiosqlite.core, "Connection", appdb.aiosqlite.Connection)
        self.real = appdb.sqlite3.connect
        E.patch(appdb.sqlite3, "connect", self.connect)
        if E.symbolic:
            E.patch(appdb.sqlite3, "register_adapter", lambda cls, f: self.adapters.__setitem__(cls, f))
            E.patch(appdb.sqlite3, "register_converter", lambda name, f: self.converters.__setitem__(name.lower(), f))

    def connect(self, database, isolation_level="", detect_types=0, **kw):
        if self.E.symbolic:
            db = MiniDB(self.files.setdefault(database, Storage()), self.adapters, self.converters, isolation_level, detect_types)
        else:
            # A database in memory exists as long as a connection to it does
            uri = f"file:{id(self)}-{database.strip('/')}?mode=memory&cache=shared"
            if database not in self.files:
                self.files[database] = self.real(uri, uri=True)
            db = self.real(uri, uri=True, isolation_level=isolation_level, detect_types=detect_types, **kw)
        self.open.append(db)
        return db

    def before(self, conn, what, a):
        if conn in self.dead:
            raise Crash("the process has ended")
        if self.hook is not None:
            self.hook(conn, what, a)

    def crash(self, conn):
        """Only what was committed remains."""
        if conn not in self.dead:
            self.dead.add(conn)
            conn.db.rollback()
            conn.db.close()

    def close(self):
        for db in self.open:
            db.close()
        if not self.E.symbolic:
            for db in self.files.values():
                db.close()
