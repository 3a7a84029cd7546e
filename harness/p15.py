"""P15 the Redis store."""
import asyncz.stores.redis  # noqa: F401  (loaded before the stand-ins are installed)

from harness import backends, pickling
from harness import storecheck as S

BOUNDS = "every state of up to three (thorough: four) tasks - any run times with ties, paused or not, also before 1970 - and one or two further operations, one unreadable record, and the back end failing at any command; client replaced by a model of the used commands"
OUTSIDE = "the Redis server, connection loss, several clients racing between the existence check and the write"
ASSUMPTIONS = ["sorted-set scores are exact (doubles separate microseconds)", "a pipeline is executed atomically"]


def factory(ctx, s):
    from asyncz.stores.redis import RedisStore

    st = RedisStore()
    st.redis = backends.FakeRedis()
    return st


def corrupt(store, tid):
    store.redis.data[store.tasks_key.encode()][tid.encode()] = b"garbage"


def instances(tier):
    ex = [("asyncz.stores.redis", "pickle", pickling)]
    return S.instances(tier, factory, tops=(3, 4), corrupt=corrupt, backend=lambda store: store.redis, extra=ex) + S.instances(
        tier, factory, tops=(1, 2), two=False, extra=ex, lo=S.OLD, label="old ", window=(1958, 2032))
