#!/usr/bin/env python3
"""check.py PID            run the check of property PID (VERIF_TIER, VERIF_SEED)
   check.py --replay FILE  run one recorded violation again"""
import importlib, json, os, sys, traceback

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import common
from common import Run, ToolFailure

WHERE = {
    "C01": "p_struct", "C02": "p_struct", "C03": "p_struct", "C04": "p_struct", "C05": "p_struct",
    "C12": "p_probe", "C13": "p_probe", "C14": "p_probe", "C15": "p_probe",
    "C09": "p_write", "C10": "p_write",
    "C16": "p_text",
    "C17": "p_conc",
    "C11": "p_robust",
    "C18": "p_tool", "C19": "p_tool", "C20": "p_tool",
    "C21": "p_user", "C22": "p_access",
    "C06": "p_codec", "C07": "p_codec", "C08": "p_codec",
}


def main():
    if sys.argv[1] == "--replay":
        v = json.load(open(sys.argv[2]))
        r = Run("replay")
        try:
            cmds = [v["cmd"]] if v.get("cmd") else [json.loads(c) for c in v.get("cmds", [])]
            if v.get("user"):
                r.use(v["user"])
            ls = r.conform(v["module"], cmds, v["what"], env=v["env"], race=v.get("race", False), denv=v.get("denv"))
            for l in ls[:3]:
                print(l[:4000])
            print("rejected" if r.violations else "accepted")
            return 1 if r.violations else 0
        finally:
            r.close()
    pid = sys.argv[1]
    r = Run(pid)
    try:
        getattr(importlib.import_module(WHERE[pid]), pid)(r)
        return r.finish(**getattr(r, "finish_args", {}))
    except ToolFailure as x:
        if r.violations:
            # what was found before the machinery gave up still stands
            print("tool failure: %s" % x, file=sys.stderr)
            return r.finish()
        print("tool failure: %s" % x, file=sys.stderr)
        return 2
    except Exception:
        traceback.print_exc()
        return 2
    finally:
        r.close()


if __name__ == "__main__":
    sys.exit(main())
