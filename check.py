#!/usr/bin/env python3
"""Entry of every check:  check.py <property> [--tier quick|thorough] [--replay file] [--seed n]"""
import importlib
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))

from sim import boot  # noqa: E402

boot.ensure_env(shim="C09" in sys.argv[1:2])


def main(argv):
    prop = argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    rep, twin = None, False
    it = iter(argv[2:])
    for a in it:
        if a == "--tier":
            tier = next(it)
        elif a == "--seed":
            seed = int(next(it))
        elif a == "--replay":
            rep = next(it)
        elif a == "--twin":
            twin = True
        else:
            raise SystemExit("unknown argument " + a)
    import random

    import numpy as np

    np.random.seed(5)
    random.seed(5)
    boot.load(instrument=prop in ("C02", "C11", "C19"))
    from sim import core

    if prop == "C11":
        from sim import c11

        ok = np.random.rand() == np.random.RandomState(5).rand() and random.random() == random.Random(5).random()
        c11.IMPORT_STATE.append(ok)
    if twin:
        return c11.serve()

    scn = getattr(importlib.import_module("sim." + prop.lower()), prop)()
    if rep:
        return core.replay(scn, rep)
    return core.check(scn, tier, seed)


if __name__ == "__main__":
    sys.stdout.reconfigure(line_buffering=True)
    sys.exit(main(sys.argv))
