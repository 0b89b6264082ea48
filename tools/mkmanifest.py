"""writes MANIFEST.json from the check modules present in checks/"""
import json
import os
import sys

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]

LAW = ("stateless model checking of the real code: exhaustive enumeration of every sequence of (discretised) random draws; "
       "exact law of the outcomes compared with an executable reference model")
TECH = {
    "C09": "stateless model checking of the real code: every sequence of draws (with extremes) must give the one expected profile",
    "C10": "stateless model checking of the real code: bounded-exhaustive usecases and calendars, joint law over days against a reference model",
    "C11": "stateless model checking under a controlled process pool: every assignment of chunks to workers and completion order, x every sequence of draws",
    "C12": "bounded-exhaustive exploration of process histories, modes and pool schedules before a seeded generation, bitwise differential",
    "C13": "bounded-exhaustive exploration of operation histories on the real objects, law of the probe after each history against the fresh one",
    "C14": "explicit-state search of operation sequences on the real usecase against a calendar reference model",
    "C15": "bounded-exhaustive enumeration of series lengths, kinds and construction orders on the real code against a reference model",
    "C16": LAW,
    "C17": "bounded-exhaustive enumeration of parameter alphabets through the real save/load, differential against the source objects",
    "C18": "bounded-exhaustive enumeration of blank patterns and power cells through the real loader against a reference reader",
    "C19": "bounded-exhaustive enumeration of definition paths and parameter subsets on the real code, differential between paths",
    "C20": "bounded-exhaustive enumeration of single and pairwise differences on the real code against a reference equality",
    "C21": "bounded-exhaustive enumeration of the option space through the real command line against a reference model",
    "C22": "bounded-exhaustive enumeration of input files, path forms and repeated conversions through the real converter, differential",
    "C23": "explicit-state search of operation sequences on real Plot objects against a plain reference model",
    "C25": "bounded-exhaustive enumeration of dates and years, and explicit-state exploration of operation sequences on the packaged data, on the real code against an independent calendar and the packaged files",
    "C24": "deviation-bounded stateless model checking of the real code: every schedule of draws with at most d departures from several defaults, extremes included",
}
NOTE = {
    "default": "Exhaustive within the stated bounds on the real code (no abstraction of the code); draws are abstracted to finite cells "
    "whose representatives and weights are exact for the integer-valued quantities; trusts CPython/PyPy, numpy, pandas and the reference model in mc/spec.py.",
    "C11": "The pool is replaced by a model which pickles tasks like the real one and enumerates schedules; conformance with the real pool is "
    "checked on the same tasks. Trusts the semantics of multiprocessing.Pool as modelled.",
}
checks = []
na = []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(here, "checks", i.lower() + ".py")):
        checks.append(dict(
            property=i,
            quick_cmd=f"/opt/pypyvenv/bin/python run.py {i} quick",
            thorough_cmd=f"/opt/pypyvenv/bin/python run.py {i} thorough",
            evidence_file=f"evidence/{i}.json",
            technique=TECH.get(i, LAW),
            level="model_checking",
            level_note=NOTE.get(i, NOTE["default"]),
        ))
    else:
        na.append(dict(property=i, reason="check under construction (see DESIGN.md)"))
man = dict(version=1, setup_cmd="/opt/pypyvenv/bin/python run.py selftest", checks=checks, not_applicable=na,
           notes="No hooks in /repo: the random generators, the process pool and input() are controlled from outside "
           "(mc/rng.py, mc/pool.py). Checks import a scratch copy of /repo/ramp made at start.")
with open(os.path.join(here, "MANIFEST.json"), "w") as fp:
    json.dump(man, fp, indent=1)
print(len(checks), "checks,", len(na), "not yet")
