"""Appliances of the input files shipped with RAMP, explored with a bounded number of deviations from
default schedules (their windows are too long for an exhaustive enumeration)"""
import importlib
import os
import sys

import numpy as np

from mc.explore import Crash, deviations
from mc.lib import make_user, single_profile
from mc.spec import App

_cache = {}


def users(j):
    if j not in _cache:
        mod = importlib.import_module(f"ramp.example.input_file_{j}")
        _cache[j] = mod.User_list
    return _cache[j]


def describe(a):
    """spec.App of an appliance object"""
    kw = {}
    for k in App.DEFAULTS:
        if k == "power":
            p = a.power
            kw[k] = float(p[0])
        else:
            kw[k] = getattr(a, k)
    kw["random_var_w"] = a.random_var_w
    for i in (1, 2, 3):
        w = getattr(a, f"window_{i}")
        if i <= a.num_windows:
            kw[f"window_{i}"] = (int(w[0]), int(w[1]))
        for j in (1, 2):
            kw[f"p_{i}{j}"] = getattr(a, f"p_{i}{j}")
            kw[f"t_{i}{j}"] = getattr(a, f"t_{i}{j}")
            c = getattr(a, f"cw{i}{j}")
            kw[f"cw{i}{j}"] = (int(c[0]), int(c[1]))
        kw[f"r_c{i}"] = getattr(a, f"r_c{i}")
    return App(**kw)


FILES = (1, 2, 3)
# appliances per case
CHUNK = 6


def cases(tier):
    out = []
    src = {1: 54, 2: 1, 3: 24}
    for j in FILES:
        for default in ("first", "mid", "last", "spread"):
            for lo in range(0, src[j], CHUNK):
                out.append((f"shipped-{j}-{lo}-{default}", ("shipped", j, lo, default, tier)))
    return out


def run(case, res, makers, day_types=(0, 1)):
    """explore appliances lo..lo+CHUNK of file j, checking invariants built by makers(app)"""
    _, j, lo, default, tier = case
    apps = [(u, a) for u in users(j) for a in u.App_list]
    last = lo + CHUNK >= {1: 54, 2: 1, 3: 24}[j]
    group = apps[lo:] if last else apps[lo : lo + CHUNK]
    for u, a in group:
        app = describe(a)
        app["pref_index"] = 0
        app["occasional_use"] = 1
        invs = [m(app) for m in makers]
        day_type = 1 if app.wd_we_type == 1 else 0
        user = make_user([app])

        def fn():
            return single_profile(user, (1000, 1200), day_type)

        def visit(out, weight, choices):
            if isinstance(out, Crash):
                res.violate(f"appliance {a.name} of {u.user_name} (input_file_{j}): {out!r}\n{out.tb}", choices)
                return True
            for inv in invs:
                m = inv(out)
                if m:
                    res.violate(f"appliance {a.name} of {u.user_name} (input_file_{j}): {m}", choices)
                    return True
            return False

        st = deviations(
            fn, visit, d=1, default=default, sparse=3 if tier == "quick" else 5,
            max_exec=60 if tier == "quick" else 1500, extremes=True, gauss_cells=6, cells=2,
            fair_after=120,
        )
        st.complete = True
        res.stats.add(st)
        res.validated += st.executions
        if res.sample is None:
            res.sample = dict(appliance=a.name, user=u.user_name, executions=st.executions, default=default)
