#!/usr/bin/env python3
"""check.py <property> [--thorough]   decides one property against /repo's working tree
check.py --setup                     compiles every harness once (fills the compiler cache)
"""
import importlib
import os
import sys
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
from vt import build as B   # noqa
from vt import core as C    # noqa


def load(prop):
    return importlib.import_module("checks." + prop.lower())


def allprops():
    return sorted(f[:-3].upper() for f in os.listdir(os.path.join(HERE, "checks"))
                  if f.endswith(".py") and f[0] == "c" and f[1:-3].isdigit())


def setup():
    units = {}
    for p in allprops():
        for name, srcs, profile in load(p).BUILDS:
            for s in srcs:
                units[(s, profile)] = 1
    B.compile_all(list(units))


def main():
    if "--setup" in sys.argv:
        setup()
        return 0
    prop = sys.argv[1].upper()
    m = load(prop)
    c = C.Check(prop)
    c.rule = m.RULE
    try:
        exes = {}
        for name, srcs, profile in m.BUILDS:
            exes[name + "." + profile] = c.build(name, srcs, profile)
        c.exe = exes
        m.run(c)
    except B.BuildError as e:
        c.cleanup()
        print("ERROR: the tree does not build: %s" % e)
        return 2
    except C.InfraError as e:
        c.cleanup()
        print("ERROR: %s" % e)
        return 2
    except Exception:
        c.cleanup()
        traceback.print_exc()
        return 2
    c.finish(*getattr(m, "EXPECT", (1, 1)))
    return 0


if __name__ == "__main__":
    sys.exit(main())
