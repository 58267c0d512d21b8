"""Measured costs: the preload library native/costs.c, and how a child imports it."""
import importlib.machinery
import importlib.util
import os


def shard_env():
    """For shards(): the environment that loads it."""
    from lib import build
    path = build.build_native("costs", ["costs.c"], ["-O2", "-fno-builtin", "-fvisibility=hidden", "-ftls-model=initial-exec"])
    return {"LD_PRELOAD": path, "VERIF_COSTS": path}


def module():
    path = os.environ["VERIF_COSTS"]
    loader = importlib.machinery.ExtensionFileLoader("costs", path)
    spec = importlib.util.spec_from_file_location("costs", path, loader=loader)
    m = importlib.util.module_from_spec(spec)
    loader.exec_module(m)
    return m
