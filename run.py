#!/usr/bin/env python3
"""run.py <property>          run the check of one property (VERIF_SEED, VERIF_TIER)
   run.py --replay FILE       run a recorded violation again: exit 1 if it is still there
   run.py --setup             build everything
Exit: 0 held on everything explored, 1 violated (VIOLATION line), 2 the check could not decide."""
import json
import os
import sys
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import core, words  # noqa: E402


def modules():
    from vlib import alg
    mods = [alg]
    try:
        from vlib import lang
        mods.append(lang)
    except ImportError:
        pass
    return mods


def main():
    if len(sys.argv) < 2:
        print(__doc__)
        return 2
    try:
        if sys.argv[1] == "--setup":
            for m in modules():
                m.setup()
            return 0
        if sys.argv[1] == "--replay":
            r = json.load(open(sys.argv[2]))
            words.use(r.get("words", ""))
            for m in modules():
                if r["property"] in m.CHECKS:
                    return m.replay(r)
            return 2
        try:
            words.prepare()
        except Exception:
            traceback.print_exc()  # the generators do without
        for m in modules():
            if sys.argv[1] in m.CHECKS:
                return m.CHECKS[sys.argv[1]]()
        print("no check for", sys.argv[1])
        return 2
    except core.Inconclusive as e:
        print("INCONCLUSIVE:", e)
        return 2
    except Exception:
        traceback.print_exc()
        return 2


sys.exit(main())
