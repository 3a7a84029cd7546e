"""P16 the MongoDB store."""
import asyncz.stores.mongo  # noqa: F401  (loaded before the stand-ins are installed)

from harness import backends, pickling
from harness import storecheck as S

BOUNDS = "every state of up to three (thorough: four) tasks - any run times with ties, paused or not - and one or two further operations, one unreadable record, and the back end failing at any command; client replaced by a model of the used commands"
OUTSIDE = "the MongoDB server, connection loss, several clients racing"
ASSUMPTIONS = ["null sorts before numbers and range conditions do not match null, as documented by MongoDB"]


def factory(ctx, s):
    from asyncz.stores.mongo import MongoDBStore

    return MongoDBStore(client=backends.FakeMongo())


def corrupt(store, tid):
    for d in store.collection.docs:
        if d["_id"] == tid:
            d["state"] = b"garbage"


def instances(tier):
    ex = [("asyncz.stores.mongo", "pickle", pickling), ("asyncz.stores.mongo", "Binary", lambda x: x)]
    return S.instances(tier, factory, tops=(3, 4), corrupt=corrupt, backend=lambda store: store.collection, extra=ex)
