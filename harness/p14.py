"""P14 the SQLAlchemy store."""
import asyncz.stores.sqlalchemy  # noqa: F401  (loaded before the stand-ins are installed)

from harness import backends, pickling
from harness import storecheck as S

BOUNDS = "every table of up to three (thorough: four) rows - any run times with ties, paused or not, any insertion order - and one or two further operations, one unreadable record, and the back end failing at any command; statements interpreted over the symbolic table"
OUTSIDE = "the database engine itself: column types (BIGINT rounding of sub-second run times on engines without SQLite's dynamic typing), isolation, connection loss; real pickle bytes (the protocol is modelled)"
ASSUMPTIONS = ["SQLAlchemy compiles the statements it is given to SQL of the same meaning", "SQL semantics of SQLite"]


def factory(ctx, s):
    from asyncz.stores.sqlalchemy import SQLAlchemyStore

    return SQLAlchemyStore(database=backends.SQLEngine())


def corrupt(store, tid):
    for r in store.engine.rows:
        if r["id"] == tid:
            r["state"] = b"garbage"


def instances(tier):
    return S.instances(tier, factory, tops=(3, 4), corrupt=corrupt, backend=lambda store: store.engine, lookup_drops=True, extra=[("asyncz.stores.sqlalchemy", "pickle", pickling)])
