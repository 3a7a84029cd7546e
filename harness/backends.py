"""Models of the storage back ends: the commands the stores use, on symbolic values."""
import functools

from symx.engine import Unsupported
from symx.values import Eq, is_sym


def eq(a, b):
    if a is None or b is None:
        return a is None and b is None
    r = Eq(a, b)
    return bool(r)


def insort(items, key, reverse=False):
    """Stable sort whose comparisons may be symbolic."""
    def cmp(a, b):
        x, y = key(a), key(b)
        if x < y:
            return -1
        if y < x:
            return 1
        return 0

    return sorted(items, key=functools.cmp_to_key(cmp), reverse=reverse)


# ------------------------------------------------------------------------------------------ redis

def b(x):
    return x.encode() if isinstance(x, str) else x


class FakeRedis:
    """hashes and sorted sets; replies carry bytes as the real client does."""

    def __init__(self, **kw):
        self.data = {}
        self.connection_pool = self
        self.log = []
        self.fail_at = None
        self.count = 0

    def disconnect(self):
        pass

    close = disconnect

    def _tick(self):
        self.count += 1
        if self.fail_at is not None and self.count == self.fail_at:
            raise ConnectionError("connection lost")

    def hget(self, key, field):
        self._tick()
        return self.data.get(b(key), {}).get(b(field))

    def hexists(self, key, field):
        self._tick()
        return b(field) in self.data.get(b(key), {})

    def hset(self, key, field=None, value=None, mapping=None):
        self._tick()
        h = self.data.setdefault(b(key), {})
        n = 0
        for f, v in [(field, value)] * (field is not None) + list((mapping or {}).items()):
            n += b(f) not in h
            h[b(f)] = v
        return n

    def hsetnx(self, key, field, value):
        self._tick()
        h = self.data.setdefault(b(key), {})
        if b(field) in h:
            return 0
        h[b(field)] = value
        return 1

    def hmget(self, key, fields, *more):
        self._tick()
        if isinstance(fields, (str, bytes)):
            fields = [fields]
        h = self.data.get(b(key), {})
        return [h.get(b(f)) for f in list(fields) + list(more)]

    def hgetall(self, key):
        self._tick()
        return dict(self.data.get(b(key), {}))

    def hkeys(self, key):
        return list(self.data.get(b(key), {}))

    def hvals(self, key):
        return list(self.data.get(b(key), {}).values())

    def hlen(self, key):
        return len(self.data.get(b(key), {}))

    def hdel(self, key, *fields):
        self._tick()
        h = self.data.get(b(key), {})
        return sum(h.pop(b(f), None) is not None for f in fields)

    def zadd(self, key, mapping, **kw):
        self._tick()
        if kw:
            raise Unsupported("zadd options")
        z = self.data.setdefault(b(key), {})
        n = 0
        for m, s in mapping.items():
            if s is None:
                raise TypeError("value is not a valid float")
            n += b(m) not in z
            z[b(m)] = s
        return n

    def zrem(self, key, *members):
        self._tick()
        z = self.data.get(b(key), {})
        return sum(z.pop(b(m), None) is not None for m in members)

    def zscore(self, key, member):
        return self.data.get(b(key), {}).get(b(member))

    def _sorted(self, key):
        items = sorted(self.data.get(b(key), {}).items())  # ties: lexicographic by member
        return insort(items, key=lambda kv: kv[1])

    def zrangebyscore(self, key, min, max, start=None, num=None, withscores=False, score_cast_func=float):
        self._tick()
        out = []

        def bound(v, s, low):
            if isinstance(v, str):
                if v in ("-inf", "+inf", "inf"):
                    return (v == "-inf") == low
                if v.startswith("("):
                    f = float(v[1:])
                    return s > f if low else s < f
                v = float(v)
            if isinstance(v, float) and v in (float("inf"), float("-inf")):
                return (v < 0) == low
            return s >= v if low else s <= v

        for m, s in self._sorted(key):
            if bound(min, s, True) and bound(max, s, False):
                out.append((m, s) if withscores else m)
        if start is not None:
            out = out[start:start + num]
        return out

    def zrange(self, key, start, end, desc=False, withscores=False, **kw):
        self._tick()
        items = self._sorted(key)
        if desc:
            items.reverse()
        n = len(items)
        if start < 0:
            start = max(0, n + start)
        if end < 0:
            end = n + end
        items = items[start:end + 1]
        return items if withscores else [m for m, _ in items]

    def zcard(self, key):
        return len(self.data.get(b(key), {}))

    def exists(self, *keys):
        return sum(bool(self.data.get(b(k))) for k in keys)

    def delete(self, *keys):
        self._tick()
        return sum(self.data.pop(b(k), None) is not None for k in keys)

    def pipeline(self, transaction=True, **kw):
        return FakePipeline(self)


class FakePipeline:
    def __init__(self, r):
        self.r, self.cmds = r, []

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.cmds = []

    def multi(self):
        pass

    def watch(self, *a):
        pass

    def reset(self):
        self.cmds = []

    def __getattr__(self, name):
        fn = getattr(self.r, name)

        def queue(*a, **k):
            self.cmds.append((fn, a, k))
            return self

        return queue

    def execute(self, **kw):
        # MULTI/EXEC: all or nothing
        self.r._tick()
        cmds, self.cmds = self.cmds, []
        saved, self.r.fail_at = self.r.fail_at, None
        try:
            return [fn(*a, **k) for fn, a, k in cmds]
        finally:
            self.r.fail_at = saved


# ------------------------------------------------------------------------------------------ mongo

class Result:
    def __init__(self, **kw):
        self.__dict__.update(kw)
        self.acknowledged = True


class FakeCollection:
    def __init__(self):
        self.docs = []
        self.fail_at = None
        self.count = 0

    _tick = FakeRedis._tick

    def create_index(self, *a, **k):
        return "idx"

    def _match(self, doc, cond):
        if cond is None:
            return True
        if not isinstance(cond, dict):
            cond = {"_id": cond}
        for f, c in cond.items():
            if f in ("$or", "$and"):
                r = [self._match(doc, x) for x in c]
                if not (any(r) if f == "$or" else all(r)):
                    return False
                continue
            v = doc.get(f)
            if not (isinstance(c, dict) and any(str(k).startswith("$") for k in c)):
                c = {"$eq": c}
            for op, x in c.items():
                if op == "$eq":
                    ok = eq(v, x)
                elif op == "$ne":
                    ok = not eq(v, x)
                elif op == "$in":
                    ok = any(eq(v, y) for y in x)
                elif op == "$nin":
                    ok = not any(eq(v, y) for y in x)
                elif op == "$exists":
                    ok = (f in doc) == bool(x)
                elif op in ("$lte", "$lt", "$gte", "$gt"):
                    # comparisons only match values of the same type class
                    if v is None or x is None:
                        ok = v is None and x is None and op in ("$lte", "$gte")
                    else:
                        ok = {"$lte": lambda: v <= x, "$lt": lambda: v < x, "$gte": lambda: v >= x, "$gt": lambda: v > x}[op]()
                else:
                    raise Unsupported("mongo operator " + op)
                if not ok:
                    return False
        return True

    def _project(self, doc, proj):
        if proj is None:
            return dict(doc)
        if isinstance(proj, dict):
            if any(not v for k, v in proj.items() if k != "_id"):
                return {k: v for k, v in doc.items() if proj.get(k, True)}
            keep = {k for k, v in proj.items() if v} | ({"_id"} if proj.get("_id", True) else set())
        else:
            keep = set(proj) | {"_id"}
        return {k: v for k, v in doc.items() if k in keep}

    def find(self, filter=None, projection=None, sort=None, limit=0, **kw):
        self._tick()
        if kw:
            raise Unsupported("find options %s" % sorted(kw))
        docs = [d for d in self.docs if self._match(d, filter)]
        return Cursor(self, docs, projection).sort(sort)._limit(limit)

    def find_one(self, filter=None, projection=None, *a, sort=None, **kw):
        for d in self.find(filter, projection, sort=sort):
            return d
        return None

    def count_documents(self, filter):
        return sum(1 for d in self.docs if self._match(d, filter))

    def insert_one(self, doc):
        self._tick()
        from pymongo.errors import DuplicateKeyError

        if any(eq(d["_id"], doc["_id"]) for d in self.docs):
            raise DuplicateKeyError("duplicate key")
        self.docs.append(dict(doc))
        return Result(inserted_id=doc["_id"])

    def _set(self, d, update):
        if any(not k.startswith("$") for k in update):
            raise ValueError("update only works with $ operators")
        for op, vals in update.items():
            if op == "$set":
                d.update(vals)
            elif op == "$unset":
                for k in vals:
                    d.pop(k, None)
            else:
                raise Unsupported("mongo update " + op)

    def update_one(self, filter, update, upsert=False):
        self._tick()
        for d in self.docs:
            if self._match(d, filter):
                self._set(d, update)
                return Result(matched_count=1, modified_count=1)
        if upsert:
            d = {k: v for k, v in filter.items() if not isinstance(v, dict)}
            self._set(d, update)
            self.docs.append(d)
        return Result(matched_count=0, modified_count=0)

    def replace_one(self, filter, doc, upsert=False):
        self._tick()
        for i, d in enumerate(self.docs):
            if self._match(d, filter):
                self.docs[i] = dict(doc, _id=d["_id"])
                return Result(matched_count=1, modified_count=1)
        return Result(matched_count=0, modified_count=0)

    def delete_one(self, filter):
        self._tick()
        for i, d in enumerate(self.docs):
            if self._match(d, filter):
                del self.docs[i]
                return Result(deleted_count=1)
        return Result(deleted_count=0)

    def delete_many(self, filter):
        self._tick()
        keep = [d for d in self.docs if not self._match(d, filter)]
        n = len(self.docs) - len(keep)
        self.docs = keep
        return Result(deleted_count=n)

    def drop(self):
        self.docs = []


class Cursor:
    def __init__(self, coll, docs, proj):
        self.coll, self.docs, self.proj = coll, docs, proj

    def sort(self, key, direction=None):
        if key is None:
            return self
        if isinstance(key, str):
            key = [(key, direction or 1)]
        docs = self.docs
        for f, d in reversed(list(key)):
            # null and missing sort before numbers
            none = [x for x in docs if x.get(f) is None]
            some = insort([x for x in docs if x.get(f) is not None], key=lambda x: x[f], reverse=d < 0)
            docs = none + some if d > 0 else some + none
        self.docs = docs
        return self

    def _limit(self, n):
        if n:
            self.docs = self.docs[:n]
        return self

    limit = _limit

    def __iter__(self):
        return iter([self.coll._project(d, self.proj) for d in list(self.docs)])


class FakeMongo:
    def __init__(self):
        self.colls = {}
        self.closed = False

    def __getitem__(self, db):
        return _DB(self, db)

    def close(self):
        self.closed = True


class _DB:
    def __init__(self, c, db):
        self.c, self.db = c, db

    def __getitem__(self, coll):
        return self.c.colls.setdefault((self.db, coll), FakeCollection())


# ------------------------------------------------------------------------------------------ sqlalchemy

class SQLEngine:
    """Interprets the SQLAlchemy core statements a store builds over one table of (symbolic) rows.

    Semantics: SQL three-valued logic for comparisons with NULL, ORDER BY without NULLS clause puts
    NULLs first when ascending (SQLite), the primary key is unique, begin() commits on success and
    rolls back on error, connect() only keeps what was committed.
    """

    def __init__(self):
        self.rows = []
        self.url = "model://"
        self.commits = 0
        self.fail_at = None
        self.count = 0

    _tick = FakeRedis._tick

    def _run_ddl_visitor(self, *a, **k):
        pass

    def dispose(self):
        pass

    def begin(self):
        return SQLConn(self, True)

    def connect(self):
        return SQLConn(self, False)


class SQLConn:
    def __init__(self, engine, auto):
        self.engine, self.auto = engine, auto

    def __enter__(self):
        self.rows = [dict(r) for r in self.engine.rows]
        return self

    def __exit__(self, et, ev, tb):
        if self.auto and et is None:
            self.commit()
        return False

    def begin(self):
        return _Tx(self)

    def commit(self):
        self.engine._tick()
        self.engine.rows = [dict(r) for r in self.rows]
        self.engine.commits += 1

    def rollback(self):
        self.rows = [dict(r) for r in self.engine.rows]

    def close(self):
        pass

    def scalar(self, stmt):
        return self.execute(stmt).scalar()

    def scalars(self, stmt):
        return self.execute(stmt).scalars()

    def execute(self, stmt, params=None):
        self.engine._tick()
        kind = type(stmt).__name__
        if kind == "Insert":
            from sqlalchemy.exc import IntegrityError

            vals = [params] if isinstance(params, dict) else params
            row = {"id": None, "next_run_time": None, "state": None}
            if vals is not None:
                raise Unsupported("insert with parameters")
            for c, v in (stmt._values or {}).items():
                row[getattr(c, "name", c)] = self.value(v, {})
            if row["id"] is None or row["state"] is None or any(eq(r["id"], row["id"]) for r in self.rows):
                raise IntegrityError("insert", {}, Exception("UNIQUE constraint failed"))
            self.rows.append(row)
            return SQLResult([], rowcount=1)
        if kind == "Select":
            return self.select(stmt)
        where = stmt._where_criteria
        if kind == "Update":
            n = 0
            for r in self.rows:
                if self.where(where, r):
                    n += 1
                    r.update({getattr(c, "name", c): self.value(v, r) for c, v in (stmt._values or {}).items()})
            return SQLResult([], rowcount=n)
        if kind == "Delete":
            keep = [r for r in self.rows if not self.where(where, r)]
            n = len(self.rows) - len(keep)
            self.rows = keep
            return SQLResult([], rowcount=n)
        raise Unsupported("statement " + kind)

    def select(self, stmt):
        rows = [r for r in self.rows if self.where(stmt._where_criteria, r)]
        cols = list(stmt._raw_columns)
        for o in reversed(list(stmt._order_by_clauses)):
            rows = self.order(rows, o)
        limit = stmt._limit_clause
        off = stmt._offset_clause
        if off is not None:
            rows = rows[self.value(off, {}):]
        if limit is not None:
            rows = rows[: self.value(limit, {})]
        out = []
        for r in rows:
            rec = []
            for c in cols:
                if type(c).__name__ == "Table":
                    rec += [(k.name, r[k.name]) for k in c.columns]
                elif hasattr(c, "name") and c.name in r and type(c).__name__ in ("Column", "AnnotatedColumn"):
                    rec.append((c.name, r[c.name]))
                elif type(c).__name__ in ("count", "min", "max"):
                    return self.aggregate(c, rows)
                else:
                    raise Unsupported("select of %s" % type(c).__name__)
            out.append(SQLRow(rec))
        if not out and len(cols) == 1 and type(cols[0]).__name__ in ("count", "min", "max"):
            return self.aggregate(cols[0], rows)
        return SQLResult(out)

    def aggregate(self, c, rows):
        kind = type(c).__name__
        if kind == "count":
            return SQLResult([SQLRow([("count", len(rows))])])
        arg = list(c.clauses)[0]
        vals = [v for v in (self.value(arg, r) for r in rows) if v is not None]
        if not vals:
            return SQLResult([SQLRow([(kind, None)])])
        best = vals[0]
        for v in vals[1:]:
            if (v < best) if kind == "min" else (v > best):
                best = v
        return SQLResult([SQLRow([(kind, best)])])

    def order(self, rows, o):
        desc, nulls = False, None
        while type(o).__name__ in ("UnaryExpression", "AnnotatedUnaryExpression") or hasattr(o, "modifier"):
            m = getattr(o.modifier, "__name__", None)
            if m == "desc_op":
                desc = True
            elif m == "asc_op":
                pass
            elif m in ("nulls_last_op", "nullslast_op"):
                nulls = "last"
            elif m in ("nulls_first_op", "nullsfirst_op"):
                nulls = "first"
            else:
                raise Unsupported("order modifier %s" % m)
            o = o.element
        while type(o).__name__ in ("_label_reference", "Grouping", "_textual_label_reference"):
            o = o.element
            if hasattr(o, "modifier"):
                return self.order(rows, o)
        key = lambda r: self.value(o, r)  # noqa: E731
        none = [r for r in rows if key(r) is None]
        some = insort([r for r in rows if key(r) is not None], key, reverse=desc)
        if nulls is None:
            nulls = "last" if desc else "first"
        return none + some if nulls == "first" else some + none

    def where(self, criteria, row):
        return all(self.truth(c, row) is True for c in criteria)

    def truth(self, e, row):
        """True / False / None (unknown)."""
        k = type(e).__name__
        if k in ("Grouping", "AsBoolean"):
            return self.truth(e.element, row)
        if k == "True_":
            return True
        if k == "False_":
            return False
        if k in ("BooleanClauseList", "ExpressionClauseList"):
            op = e.operator.__name__
            vals = [self.truth(c, row) for c in e.clauses]
            if op == "and_":
                return False if False in vals else None if None in vals else True
            if op == "or_":
                return True if True in vals else None if None in vals else False
        if k == "UnaryExpression" and getattr(e.operator, "__name__", "") in ("inv", "not_"):
            v = self.truth(e.element, row)
            return None if v is None else not v
        if k in ("BinaryExpression", "AnnotatedBinaryExpression"):
            op = e.operator.__name__
            a = self.value(e.left, row)
            if op in ("in_op", "not_in_op"):
                vals = self.value(e.right, row)
                if a is None:
                    return None
                r = any(eq(a, v) for v in vals)
                return r if op == "in_op" else not r
            if op in ("is_", "is_not", "isnot"):
                b_ = self.value(e.right, row)
                r = (a is None) if b_ is None else eq(a, b_)
                return r if op == "is_" else not r
            b_ = self.value(e.right, row)
            if a is None or b_ is None:
                return None
            if op == "eq":
                return eq(a, b_)
            if op == "ne":
                return not eq(a, b_)
            if op in ("le", "lt", "ge", "gt"):
                return bool({"le": lambda: a <= b_, "lt": lambda: a < b_, "ge": lambda: a >= b_, "gt": lambda: a > b_}[op]())
            if op in ("between_op",):
                raise Unsupported("between")
        raise Unsupported("sql condition %s" % k)

    def value(self, e, row):
        k = type(e).__name__
        if k in ("Column", "AnnotatedColumn"):
            return row[e.name]
        if k in ("BindParameter", "_OffsetLimitParam", "AnnotatedBindParameter"):
            if e.callable is not None:
                return e.callable()
            return e.value
        if k == "Null":
            return None
        if k in ("Grouping",):
            return self.value(e.element, row)
        if k in ("str", "int", "float", "bytes", "NoneType") or is_sym(e) or not hasattr(e, "__visit_name__"):
            return e
        if k == "coalesce":
            for c in e.clauses:
                v = self.value(c, row)
                if v is not None:
                    return v
            return None
        raise Unsupported("sql expression %s" % k)


class _Tx:
    def __init__(self, c):
        self.c = c

    def __enter__(self):
        return self

    def __exit__(self, et, ev, tb):
        if et is None:
            self.c.commit()
        else:
            self.c.rollback()
        return False


class SQLRow:
    def __init__(self, items):
        self._items = items
        self._mapping = dict(items)

    def __getattr__(self, n):
        try:
            return self.__dict__["_mapping"][n]
        except KeyError:
            raise AttributeError(n) from None

    def __getitem__(self, i):
        return self._items[i][1]

    def __iter__(self):
        return iter([v for _, v in self._items])

    def __len__(self):
        return len(self._items)


class SQLResult:
    def __init__(self, rows, rowcount=-1):
        self.rows, self.rowcount = rows, rowcount

    def __iter__(self):
        return iter(self.rows)

    def first(self):
        return self.rows[0] if self.rows else None

    fetchone = one_or_none = first

    def all(self):
        return list(self.rows)

    fetchall = all

    def scalar(self):
        return self.rows[0][0] if self.rows else None

    scalar_one_or_none = scalar

    def scalars(self):
        return SQLScalars([r[0] for r in self.rows])

    def mappings(self):
        return SQLScalars([r._mapping for r in self.rows])

    def close(self):
        pass


class SQLScalars(SQLResult):
    def scalar(self):
        return self.rows[0] if self.rows else None
