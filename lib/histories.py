"""L01 to L04: random histories against a built-in list."""
RULE = ("A case is a random history of list operations on one list (random construction, element distribution, "
        "indices, slices and argument types), after every operation the result, the exception kind and the full "
        "contents are compared with a built-in list. distinct_nontrivial counts distinct (operation, arguments, "
        "resulting contents digest) steps that were compared. The giant shards walk array lists of several GiB "
        "through the same operations, each region of a giant list that was compared is one more.")
ASSUMPTIONS = ["element values stay in the element range (values outside it are L06)",
               "the host interpreter's built-in list is the reference"]


def shards(tier, kinds):
    from lib import giant
    cases = {"quick": 12000, "thorough": 250000}[tier]
    result = []
    for k in kinds:
        result.append(dict(name="history-" + k, kind=k, lo=0, hi=cases, split=8 if tier == "quick" else 16, length=40))
        result.append(dict(name="long-" + k, kind=k, lo=0, hi=cases // 20, split=4, length=400))
        # lists of tens and hundreds of thousands of elements
        result.append(dict(name="large-" + k, kind=k, lo=0, hi=cases // 100, split=8 if tier == "quick" else 16, length=15,
                           large=True, weight=3))
        # and of millions
        result.append(dict(name="vast-" + k, kind=k, lo=0, hi=8 if tier == "quick" else 80, split=2 if tier == "quick" else 4, length=10,
                           large="vast", weight=30, rlimit_mb=0))
        # operations whose callbacks change the list they work on
        result.append(dict(name="reentrant-" + k, kind=k, lo=0, hi=cases * 2, split=2, mode="reentrant"))
        result.append(dict(name="asan-reentrant-" + k, kind=k, variant="asan", lo=0, hi=cases // 3, split=1, mode="reentrant"))
        # the same histories under the address and undefined behaviour sanitizers
        result.append(dict(name="asan-" + k, kind=k, variant="asan", lo=0, hi=cases // 6, split=4, length=40))
    arrays = [k for k in kinds if "Array" in k]
    if arrays:
        result += giant.shards(arrays, tier)
    return result


def run_case(ctx, shard, case):
    from lib import giant, lists, reentrant
    if shard.get("mode") == "giant":
        return giant.case(ctx, shard, case)
    if shard.get("mode") == "reentrant":
        return reentrant.case(ctx, lists.KINDS[shard["kind"]])
    lists.run_history(ctx, lists.KINDS[shard["kind"]], shard["length"], shard.get("large", False))
