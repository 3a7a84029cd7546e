"""P13 the memory store."""
from harness import storecheck as S

BOUNDS = "every store state of up to three (thorough: four) tasks - any insertion order relative to the ids, any run times with ties, paused or not - and one or two further operations: an inductive step over arbitrary histories"
OUTSIDE = "more than four tasks (the binary search has at most three levels); mutating a stored task without calling update"
ASSUMPTIONS = ["timestamps are exact rationals (doubles separate microseconds until the year 2255)"]


def factory(ctx, s):
    from asyncz.stores.memory import MemoryStore

    return MemoryStore()


def instances(tier):
    return S.instances(tier, factory, tolerant_update=True, tops=(3, 4))
