#!/usr/bin/env python3
"""check.py <property> [quick|thorough]: decides one property on /repo's working tree."""
import os, sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import core, objects, buffers, prims, gens

TABLE = {}
for mod in (objects, buffers, prims, gens):
    for name in dir(mod):
        if name[0] == "c" and name[1:].isdigit():
            TABLE[name.upper()] = getattr(mod, name)

if __name__ == "__main__":
    core.main(TABLE)
