"""C01 windows of use: containment and law of the randomised limits"""
import numpy as np

from mc import spec
from mc.lib import app_law, make_user, single_profile
from mc.spec import App
from checks import shipped

BOUNDS = dict(
    quick="every (start, end) draw of 1-3 windows with a variability of up to 12 minutes; 1-3 events",
    thorough="every draw of 1-3 windows with a variability of up to 40 minutes; 1-4 events",
)
ASSUMPTIONS = ["draws are abstracted to the cells described in mc/rng.py"]


def limits(app):
    """per window: (earliest start, latest start, earliest end, latest end)"""
    out = []
    for s, e in app.windows:
        v = int(app.random_var_w * (e - s))
        out.append((max(0, s - v), min(1440, e + v)))
    return out


def containment(app):
    mask = np.zeros(1440, dtype=bool)
    for lo, hi in limits(app):
        mask[lo:hi] = True
    outside = ~mask

    def inv(profile):
        if len(profile) != 1440:
            return f"the profile has {len(profile)} minutes"
        bad = np.flatnonzero(np.logical_and(outside, profile != 0))
        if bad.size:
            return (
                f"power {profile[bad[0]]} at minute {bad[0]}, outside the windows "
                f"{app.windows} widened by random_var_w={app.random_var_w}"
            )
        if (profile < 0).any():
            return f"negative power at minute {int(np.flatnonzero(profile < 0)[0])}"
        return None

    return inv


def flat_cases(tier):
    t = tier == "thorough"
    W = [
        ("one", dict(window_1=(10, 20), random_var_w=0.2)),
        ("nearmidnight", dict(window_1=(1430, 1440), random_var_w=0.4)),
        ("startofday", dict(window_1=(0, 10), random_var_w=0.5)),
        ("bothedges", dict(window_1=(2, 12), random_var_w=0.5)),
        ("beforeend", dict(window_1=(1427, 1437), random_var_w=0.5)),
        ("truncated", dict(window_1=(30, 37), random_var_w=0.35)),
        ("novar", dict(window_1=(100, 400), random_var_w=0)),
        ("tinyvar", dict(window_1=(100, 109), random_var_w=0.1)),
        ("two", dict(num_windows=2, window_1=(10, 16), window_2=(40, 50), random_var_w=0.2)),
        ("twoorder", dict(num_windows=2, window_1=(40, 50), window_2=(10, 16), random_var_w=0.17)),
        ("three", dict(num_windows=3, window_1=(10, 13), window_2=(40, 44), window_3=(60, 65),
                       random_var_w=0.34)),
        ("threeedge", dict(num_windows=3, window_1=(0, 3), window_2=(700, 704), window_3=(1437, 1440),
                           random_var_w=0.34)),
        ("half", dict(window_1=(50, 58), random_var_w=0.5)),
        ("large", dict(window_1=(50, 58), random_var_w=0.75)),
        ("full", dict(window_1=(50, 56), random_var_w=1.0)),
        ("longday", dict(window_1=(5, 1435), random_var_w=0.008)),
        ("wholeday", dict(window_1=(0, 1440), random_var_w=0.005)),
        ("joined", dict(num_windows=2, window_1=(10, 20), window_2=(20, 30), random_var_w=0.2)),
    ]
    if t:
        W += [
            ("one40", dict(window_1=(300, 500), random_var_w=0.2)),
            ("edge20", dict(window_1=(10, 50), random_var_w=0.5)),
            ("edge30", dict(window_1=(1410, 1440), random_var_w=1.0)),
            ("two6", dict(num_windows=2, window_1=(100, 115), window_2=(140, 160), random_var_w=0.2)),
            ("three3", dict(num_windows=3, window_1=(10, 20), window_2=(40, 50), window_3=(60, 70),
                            random_var_w=0.2)),
        ]
        for v in (0.1, 0.25, 0.3, 0.6, 0.9):
            for n in (4, 7, 11, 15):
                W.append((f"grid{v}-{n}", dict(window_1=(200, 200 + n), random_var_w=v)))
    for key, kw in W:
        n = sum(kw[f"window_{i}"][1] - kw[f"window_{i}"][0] for i in (1, 2, 3) if f"window_{i}" in kw)
        yield "flat-" + key, App(func_time=min(n, 3), flat="yes", power=50, **kw)


def event_cases(tier):
    t = tier == "thorough"
    W = [
        ("one", dict(window_1=(10, 14), random_var_w=0.25, func_time=3, func_cycle=2)),
        ("start", dict(window_1=(0, 4), random_var_w=0.5, func_time=2, func_cycle=2)),
        ("end", dict(window_1=(1436, 1440), random_var_w=0.5, func_time=2, func_cycle=2)),
        ("two", dict(num_windows=2, window_1=(10, 13), window_2=(20, 23), random_var_w=0.34,
                     func_time=2, func_cycle=2)),
        ("three", dict(num_windows=3, window_1=(10, 13), window_2=(20, 22), window_3=(1438, 1440),
                       random_var_w=0.34, func_time=2, func_cycle=2)),
        ("overlap", dict(num_windows=2, window_1=(10, 14), window_2=(13, 17), random_var_w=0,
                         func_time=3, func_cycle=2)),
        ("touch", dict(num_windows=2, window_1=(10, 13), window_2=(13, 16), random_var_w=0.34,
                       func_time=2, func_cycle=2)),
        ("large", dict(window_1=(50, 54), random_var_w=1.0, func_time=1, func_cycle=1)),
    ]
    if t:
        W += [
            ("three2", dict(num_windows=3, window_1=(10, 14), window_2=(20, 23), window_3=(1436, 1440),
                            random_var_w=0.34, func_time=3, func_cycle=2)),
            ("one1", dict(window_1=(10, 16), random_var_w=0.34, func_time=3, func_cycle=1)),
            ("two2", dict(num_windows=2, window_1=(10, 15), window_2=(18, 23), random_var_w=0.2,
                          func_time=4, func_cycle=2)),
        ]
    for key, kw in W:
        yield "events-" + key, App(power=50, fixed="yes", **kw)


def cases(tier):
    out = [(k, ("law", a)) for k, a in flat_cases(tier)]
    out += [(k, ("law", a)) for k, a in event_cases(tier)]
    out += shipped.cases(tier)
    return out


def run_case(case, res):
    if case[0] == "law":
        app = case[1]
        app_law(res, app, res.case, invariants=[containment(app)], cells=2)
    else:
        shipped.run(case, res, [containment])
