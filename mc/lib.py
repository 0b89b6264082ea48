"""Helpers shared by the checks: building objects of the code under test from reference parameters,
exploring the law of a profile and comparing it with the reference model"""
import numpy as np

from mc import spec
from mc.report import Result
from mc.explore import Crash, deviations, explore, run_once  # noqa: F401

PEAK_NEVER = (2000, 2010)


def core():
    import ramp.core.core as c

    return c


APP_KEYS = (
    "number", "power", "num_windows", "func_time", "time_fraction_random_variability", "func_cycle",
    "fixed", "fixed_cycle", "continuous_duty_cycle", "occasional_use", "flat", "thermal_p_var",
    "pref_index", "wd_we_type", "name",
)


def add_app(user, app):
    """add an appliance described by spec.App to a user"""
    kw = {}
    for k, v in app.items():
        if k.startswith("cw") or (k.startswith("window_")):
            v = list(v)
        elif k == "power" and isinstance(v, (list, tuple)):
            import pandas as pd

            v = pd.DataFrame({"p": list(v)})
        kw[k] = v
    return user.add_appliance(**kw)


def make_user(apps, num_users=1, user_preference=0, name="u"):
    user = core().User(name, num_users, user_preference)
    for i, a in enumerate(apps):
        if "name" not in a:
            a = spec.App(**a)
            a["name"] = f"app{i}"
        add_app(user, a)
    return user


def peak_array(peak):
    return np.arange(peak[0], peak[1] + 1)


def single_profile(user, peak=PEAK_NEVER, day_type=0, prof_i=0):
    return user.generate_single_load_profile(prof_i, peak_array(peak), day_type)


class Law:
    """accumulates the law of the outcomes of an exploration"""

    def __init__(self, res, canon=spec.canon, invariants=(), expected_errors=("ValueError",), label=""):
        self.res = res
        self.dist = {}
        self.canon = canon
        self.invariants = invariants
        self.expected_errors = expected_errors
        self.label = label
        self.example = {}

    def __call__(self, out, weight, choices):
        if isinstance(out, Crash):
            if out.type in self.expected_errors:
                key = out.type
            else:
                self.res.violate(f"{self.label}: the simulation raises {out!r}\n{out.tb}", choices)
                return len(self.res.violations) > 3
        else:
            for inv in self.invariants:
                msg = inv(out)
                if msg:
                    self.res.violate(f"{self.label}: {msg}", choices)
                    return len(self.res.violations) > 3
            key = self.canon(out)
        if key not in self.dist:
            self.dist[key] = 0.0
            self.example[key] = choices
        self.dist[key] += weight
        return False

    def check(self, expected, tol=1e-7, limit=3):
        if self.res.bad:
            return
        diffs = spec.compare(self.dist, expected, tol)
        for d in diffs[:limit]:
            self.res.violate(f"{self.label}: {d}")
        self.res.validated += len(expected)


# executions of the second exploration (finer cells) of a law which does not match
MAX_AGAIN = 40000


def check_law(res, make, run, expected, label, tol=1e-7, invariants=(), max_exec=400000,
              expected_errors=("ValueError",), canon=spec.canon, **ctl):
    """explore run(make()) exhaustively and compare the law of its outcome with `expected`

    A law which does not match is explored again with finer cells for the draws in (0, 1) before it is
    reported: code which computes the same quantities from random() needs them.
    """
    from math import gcd

    k = ctl.get("cells", 4)
    k01 = ctl.get("cells01", 1)
    attempts = [ctl, dict(ctl, cells01=k * k01 // gcd(k, k01))]
    first = None
    objects = make()

    def fn():
        return run(objects)

    for ctl_i in attempts:
        sub = Result(res.case)
        law = Law(sub, canon=canon, invariants=invariants, expected_errors=expected_errors, label=label)
        st = explore(fn, law, max_exec=max_exec if first is None else min(max_exec, MAX_AGAIN), **ctl_i)
        res.stats.add(st)
        if st.divergences:
            sub.violate(f"{label}: the draws of the code differ when the same choices are replayed")
        elif not sub.bad:
            if not st.complete:
                res.stats.complete = False
                if first is None:
                    # not the whole tree: only impossible outcomes can be told
                    for k in law.dist:
                        if k not in expected:
                            sub.violate(f"{label}: outcome {spec.show(k)} is not possible", law.example[k])
                            break
                else:
                    sub.violations = first.violations
            else:
                law.check(expected, tol)
        if not sub.bad:
            break
        if first is None:
            first = sub
            if attempts[1]["cells01"] == k01 or not st.complete:
                break
    if sub.bad:
        res.violations += first.violations
    res.validated += sub.validated
    if res.sample is None and law.dist:
        k = sorted(law.dist, key=repr)[len(law.dist) // 2]
        res.sample = dict(
            what=label,
            outcome=spec.show(k),
            probability=law.dist[k],
            outcomes=len(law.dist),
            executions=st.executions,
        )
    return law


def app_law(res, app, label, peak=PEAK_NEVER, day_type=0, user_preference=0, num_users=1, **kw):
    """law of one appliance for one single user vs the reference model"""
    expected = spec.law(
        app, peak, day_type, user_preference=user_preference, cells=kw.setdefault("cells", 4)
    )
    return check_law(
        res,
        lambda: make_user([app], num_users, user_preference),
        lambda u: single_profile(u, peak, day_type),
        expected,
        label,
        **kw,
    )
