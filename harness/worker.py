"""python -m harness.worker PROP SUB SHARD SEED TIER N BUDGET OUT"""
import sys

from . import env

env.setup()
from . import core  # noqa: E402


def main():
    prop, name, shard, seed, tier, n, budget, out = sys.argv[1:9]
    core.limit_memory()
    import importlib
    mod = importlib.import_module('checks.' + prop.lower())
    sub = next(s for s in mod.SUBS if s.name == name)
    s = core.derive_seed(seed, prop, name, shard)
    res = core.search(prop, sub, s, int(n), float(budget))
    core.write_json(out, res)


if __name__ == '__main__':
    main()
