#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] [--replay FILE]"""
import argparse, importlib, json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(ROOT, "lib"))
import fw

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED") or 1))
    ap.add_argument("--replay")
    ap.add_argument("--part", default=None)
    a = ap.parse_args()
    m = importlib.import_module("props." + a.prop.lower())
    tier = "thorough" if a.tier == "thorough" else "quick"
    parts = [p(tier == "quick", a.seed) for p in m.PARTS if a.part in (None, p.name)]
    replay = json.load(open(a.replay)) if a.replay else None
    return fw.run_check(a.prop, parts, tier, a.seed, getattr(m, "LEVEL", "model_checking"), m.ASSUMPTIONS, replay)

if __name__ == "__main__":
    sys.exit(main())
