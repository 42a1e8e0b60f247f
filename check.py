#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough]: decide one property on /repo."""
import importlib
import os
import sys
import traceback

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(VERIF, "engine"))
sys.setrecursionlimit(20000)
sys.dont_write_bytecode = True

MODULES = ["p_cpu", "p_asm", "p_dis", "p_kern", "p_obj", "p_src", "p_tools", "p_lex"]


def main():
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    a = ap.parse_args()
    from extract import Ctx, BuildError
    from report import Report, finish
    from facts import MissingAnchor
    from interp import Unsupported, Unbounded
    from pool import NoAnswer, PENDING
    from bdd import Blowup
    fn = None
    for m in MODULES:
        fn = fn or getattr(importlib.import_module(m), a.property, None)
    if fn is None:
        print(f"no such property: {a.property}")
        return 2
    rep = Report(a.property, a.tier)
    try:
        expl = fn(Ctx(), rep)
    except (MissingAnchor, Unsupported, Unbounded, NoAnswer, BuildError, Blowup) as e:
        print(f"NO-ANSWER property={a.property} {type(e).__name__}: {e}")
        if not rep.findings:
            return 2
        expl = "The analysis is incomplete: " + str(e)
    except Exception:
        traceback.print_exc()
        print(f"NO-ANSWER property={a.property} (engine failure)")
        return 2
    if PENDING:
        print(f"NO-ANSWER property={a.property} " + "; ".join(PENDING[:4]))
        if not rep.findings:
            return 2
    return finish(rep, "other", expl, int(os.environ.get("VERIF_SEED", "1") or 1))


if __name__ == "__main__":
    sys.exit(main())
