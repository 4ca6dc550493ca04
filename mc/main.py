# -*- coding: utf-8 -*-
"""Entry point of every check: main.py <ID> [--tier T] [--replay FILE]."""
import argparse
import importlib
import json
import os
import sys

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("id")
    ap.add_argument("--tier", default=None)
    ap.add_argument("--replay", default=None)
    ap.add_argument("--part", default=None)
    a = ap.parse_args()
    if a.tier:
        os.environ["VERIF_TIER"] = a.tier
    if a.part:
        os.environ["VERIF_PART"] = a.part
    mod = importlib.import_module("props." + a.id.lower())
    from report import Report

    if a.replay:
        d = json.load(open(a.replay))
        print(json.dumps(d, indent=1))
        if hasattr(mod, "replay"):
            mod.replay(d["replay"])
        return
    rep = Report(a.id, mod.LEVEL)
    try:
        mod.run(rep)
    except SystemExit:
        raise
    except BaseException as e:
        from explore import Stats, note_exception

        st = Stats()
        note_exception(st, e, "check driver")
        rep.add("driver", st)
        rep.finish("driver failed", exhaustive=False)


main()
