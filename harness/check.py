"""Entry point: check.py Cxx [--replay FILE]"""

import argparse
import importlib
import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))

import core  # noqa: E402


def parse():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--replay")
    ap.add_argument("--shard", type=int)
    ap.add_argument("--shards", type=int)
    ap.add_argument("--out")
    ap.add_argument("--tmp")
    return ap.parse_args()


if __name__ == "__main__":
    args = parse()
    prop = importlib.import_module(f"props.{args.property.lower()}")
    if args.shard is not None:
        sys.exit(core.shard_main(prop, args, args.tmp))
    sys.exit(core.main(args.property, prop, args))
