"""C09 flat appliances without window variability: the same profile whatever is drawn"""
import numpy as np

from mc.explore import Crash, explore
from mc.lib import make_user, single_profile
from mc.spec import App

BOUNDS = dict(
    quick="1-3 windows at 9 positions, 1-3 copies, every draw of every other variability (2 cells + extremes)",
    thorough="1-3 windows at 9 positions, 1-5 copies, every draw of every other variability (4 cells + "
    "extremes)",
)
ASSUMPTIONS = ["draws are abstracted to the cells described in mc/rng.py, plus the extreme values"]

SPANS = ((0, 5), (10, 14), (0, 1440), (700, 800), (1435, 1440), (100, 1340), (719, 722), (0, 2), (3, 1440))


def cases(tier):
    out = []
    for i, w in enumerate(SPANS):
        for j, extra in enumerate(((), ((200, 260),), ((200, 260), (300, 301)), ((5, 10),), ((0, 1440),))):
            ws = (w,) + extra
            for kind in ("plain", "fuzzy"):
                out.append((f"flat-{i}-{j}-{kind}", (ws, kind, tier)))
    return out


def run_case(case, res):
    ws, kind, tier = case
    numbers = (1, 2, 3) if tier == "quick" else (1, 2, 3, 4, 5)
    series = [10.0 + d for d in range(366)]
    for n in numbers:
        for P in (100, 0.5, series):
            kw = {f"window_{i + 1}": w for i, w in enumerate(ws)}
            app = App(power=P, number=n, flat="yes", num_windows=len(ws), func_time=2, **kw)
            if kind == "fuzzy":
                app.update(time_fraction_random_variability=0.5, thermal_p_var=0.3, fixed="no", func_cycle=1)
            total = sum(b - a for a, b in ws)
            if total * 0.99 < 3:
                app["func_time"] = 1
            for day in (0, 5, 365):
                val = (P[day] if isinstance(P, list) else P) * n
                expected = np.zeros(1440)
                for a, b in ws:
                    expected[a:b] = val
                user = make_user([app])

                def visit(out, weight, choices):
                    if isinstance(out, Crash):
                        res.violate(f"{res.case}: {out!r}\n{out.tb}", choices)
                    elif out.shape != (1440,) or not np.allclose(out, expected, rtol=1e-12, atol=0):
                        m = int(np.flatnonzero(~np.isclose(out, expected, rtol=1e-12, atol=0))[0])
                        res.violate(
                            f"{res.case}: {n} x {'series' if isinstance(P, list) else P} W on day {day}, windows "
                            f"{ws}: {out[m]} W at minute {m} instead of {expected[m]}", choices)
                    return res.bad

                st = explore(lambda: single_profile(user, (0, 1439), day % 2, day), visit,
                             cells=2 if tier == "quick" else 4, extremes=True)
                res.stats.add(st)
                res.validated += st.executions
                if res.bad:
                    return
    res.sample = dict(windows=ws, last_value=float(val), executions=res.stats.executions)
