"""python worker.py <prop> <sub> <seed> <n> <budget> <out.json> <shard> <shards>"""
import importlib
import json
import os
import sys

here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
import bootstrap  # noqa
import core


def main():
    prop, name, seed, n, budget, out, shard, shards = sys.argv[1:9]
    mod = importlib.import_module(prop.lower())
    sub = [s for s in mod.SUBS if s.name == name][0]
    known = bootstrap.known_findings(prop)

    def is_known(key, case):
        return any(k["sub"] == name and k["key"] == key and k["match"](case) for k in known)
    try:
        st = core.drive(sub, int(seed), int(n), float(budget), known=is_known, shard=(int(shard), int(shards)))
    finally:
        core.cleanup()
    tmp = out + ".tmp"
    with open(tmp, "w") as f:
        json.dump(st, f)
    os.rename(tmp, out)


main()
