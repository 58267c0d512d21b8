from lib import histories
from lib.histories import ASSUMPTIONS, RULE, run_case  # noqa: F401


def shards(tier, seed):
    return histories.shards(tier, ["ObjectArrayList"])
