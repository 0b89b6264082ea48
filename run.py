#!/opt/pypyvenv/bin/python
"""run.py CHECK_ID [quick|thorough]      run a check
run.py selftest                         check the machinery itself (setup_cmd)
run.py replay FILE                       re-run the case of a replay file and show what fails
"""
import importlib
import json
import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))

from mc import boot  # noqa: E402


def load(prop):
    return importlib.import_module("checks." + prop.lower())


def main():
    if len(sys.argv) < 2:
        print(__doc__)
        return 2
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    boot.setup()
    from mc import report

    if sys.argv[1] == "replay":
        with open(sys.argv[2]) as fp:
            rep = json.load(fp)
        check = load(rep["property"])
        report._CHECK = check
        todo = [c for c in check.cases(rep["tier"]) if c[0] == rep["case"]]
        if not todo:
            boot.say("the case does not exist any more: " + rep["case"])
            return 2
        boot.say("recorded: " + rep["message"])
        boot.say("choices: " + json.dumps(rep["choices"]))
        res = report._run_case(todo[0])
        for sig, msg, choices in res.violations[:10]:
            boot.say("NOW: " + msg)
        if not res.violations:
            boot.say("NOW: no violation")
        return 1 if res.violations else 0
    if sys.argv[1] == "selftest":
        from mc import selftest

        return selftest.main()
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    check = load(prop)
    return report.run(check, prop, tier, seed, jobs=int(os.environ.get("VERIF_JOBS", "8")))


if __name__ == "__main__":
    try:
        code = main()
    except Exception:
        import traceback

        boot.say("harness error\n" + traceback.format_exc())
        code = 2
    boot._cleanup()
    os._exit(code)
