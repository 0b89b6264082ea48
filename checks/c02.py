"""C02 daily time of use: its law, its cap by the windows, its lower bound by func_cycle"""
import numpy as np

from checks import laws, shipped
from checks.laws import Case
from mc.spec import App, IDLE

BOUNDS = dict(
    quick="func_time 1-20 (and 1440), variability 0-100%, func_cycle 1-18, 1-3 windows, every draw",
    thorough="func_time 1-40 (and 1440), variability 0-100%, func_cycle 1-38, 1-3 windows, every draw",
)
ASSUMPTIONS = ["draws are abstracted to the cells described in mc/rng.py"]


def law_cases(tier):
    t = tier == "thorough"
    out = []

    def add(key, cells=2, **kw):
        out.append((key, Case(App(power=10, fixed="yes", **kw), cells=cells)))

    # no variability: F, fc and the windows
    for F in (1, 2, 3, 4) + ((5, 6) if t else ()):
        for fc in (1, 2, 3, 5):
            for n in (F, F + 1, F + 3):
                if F >= 4 and fc == 1 and n > F + 1 and not t:
                    continue
                if F >= 5 and fc <= 2 and n > F:
                    continue
                add(f"fixed-F{F}-fc{fc}-w{n}", func_time=F, func_cycle=fc, window_1=(100, 100 + n))
    # variability of the time of use
    for F, v, cells in ((10, 0.2, 4), (10, 0.5, 10), (4, 0.5, 4), (5, 0.2, 2), (4, 1.0, 8), (5, 0.6, 6),
                        (20, 0.1, 4), (3, 1.0, 6)) + (((40, 0.1, 8), (20, 0.3, 12)) if t else ()):
        hi = int(F * (1 + v))
        for fc in {max(1, int(0.8 * F)), F} | ({max(1, int(0.7 * F))} if t else set()):
            if fc < 4 and F > 4:
                continue
            for n in (F, hi, hi + 2):
                if fc == 1 and n > 5:
                    continue
                add(f"var-F{F}-v{v}-fc{fc}-w{n}", cells, func_time=F, func_cycle=fc,
                    time_fraction_random_variability=v, window_1=(500, 500 + n))
    # the flat profile does not depend on the time of use
    add("flat", 4, func_time=10, func_cycle=2, time_fraction_random_variability=0.2, flat="yes",
        window_1=(0, 12))
    # sum over the windows
    for n, ws in ((2, ((10, 14), (20, 24))), (3, ((10, 13), (20, 23), (30, 33))), (2, ((10, 18), (18, 20)))):
        kw = {f"window_{i + 1}": w for i, w in enumerate(ws)}
        for F, fc in ((3, 3), (6, 3), (8, 4), (7, 2) if t else (8, 3)):
            if F <= sum(b - a for a, b in ws):
                add(f"sum{n}-{ws[0][1]}-F{F}-fc{fc}", func_time=F, func_cycle=fc, num_windows=n, **kw)
    # random windows: the time available is the one of the randomised windows
    for v in (0.1, 0.2) + ((0.3,) if t else ()):
        add(f"rw{v}", 2, func_time=10, func_cycle=8, window_1=(50, 60), random_var_w=v)
        add(f"rw2{v}", 2, func_time=10, func_cycle=5, num_windows=2, window_1=(50, 55), window_2=(60, 65),
            random_var_w=2 * v)
    # 99% of long windows
    add("day", func_time=1440, func_cycle=1415, window_1=(0, 1440))
    add("long", func_time=300, func_cycle=295, window_1=(600, 900))
    add("long2", func_time=300, func_cycle=298, window_1=(600, 900))
    add("two-long", func_time=300, func_cycle=148, num_windows=2, window_1=(0, 150), window_2=(600, 750))
    return out


def budget(app):
    """on time of an appliance never exceeds the largest time of use"""
    F, v = app.func_time, app.time_fraction_random_variability
    most = max(int(F * (1 + v) + 1e-9), F, app.func_cycle)

    def inv(profile):
        on = int((profile > IDLE).sum())
        if app.flat != "yes" and on > most:
            return f"on during {on} minutes, func_time={F} with variability {v} allows {most}"
        return None

    return inv


def cases(tier):
    return law_cases(tier) + shipped.cases(tier)


def run_case(case, res):
    if isinstance(case, Case):
        laws.run(case, res)
    else:
        shipped.run(case, res, [budget])
