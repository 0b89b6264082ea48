"""C24 generation always completes for documented parameters"""
import itertools
import warnings

import numpy as np

from mc.explore import Crash, deviations, run_once
from mc.lib import make_user, single_profile
from mc.spec import App

BOUNDS = dict(
    quick="appliances: a covering array of strength 3 over 17 parameters with their extreme values; for each one every schedule of draws "
    "with at most 1 departure (positions up to the bound of executions) from 4 default schedules, extremes included; a further family of "
    "appliances whose events miss their duty cycle windows with unfair schedules of up to 6000 repeated draws",
    thorough="the same with a second covering array of strength 3 and up to 2 departures",
)
ASSUMPTIONS = [
    "after 60 draws (6000 in the unfair family) the default schedules stop repeating the same choice: an endless repetition of the same "
    "unlucky draw has probability 0 and is not a violation",
]
CASE_TIMEOUT = 850

WINDOWS = {
    "short": ((5, 6),), "three": ((5, 8),), "day": ((0, 1440),), "evening": ((1439, 1440),), "hours": ((480, 720),),
    "two": ((10, 20), (30, 31)), "adjacent": ((100, 160), (160, 200)), "overlap": ((100, 200), (150, 250)), "half": ((0, 720), (720, 1440)),
    "threes": ((0, 2), (700, 705), (1438, 1440)), "same": ((50, 60), (50, 60), (50, 60)),
}
SERIES = [float(d % 5) for d in range(366)]
PARAMS = dict(
    windows=list(WINDOWS), random_var_w=[0, 0.2, 0.5, 1], number=[1, 0, 2, 30], power=[100, 0, 0.001, 1e6, SERIES],
    func_time=[1, 0, 7, 90, 1440], time_fraction_random_variability=[0, 0.1, 0.5, 1], func_cycle=[1, 2, 10, "time"], fixed=["no", "yes"],
    fixed_cycle=[0, 1, 2, 3], cycle=["usual", "zero", "long", "one"], r_c=[0, 0.2, 1], cw=["all", "none", "part", "edges", "default"],
    continuous_duty_cycle=[1, 0], occasional_use=[1, 0.5], flat=["no", "no", "yes"], thermal_p_var=[0, 0.3, 1], kind=["", "", "pref", "week"],
    peak=["never", "always", "minute"],
)
CYCLES = {"usual": (100, 3, 50, 2), "zero": (100, 0, 0, 0), "long": (10, 1000, 5, 900), "one": (7, 1, 0, 0)}
PEAKS = {"never": (2000, 2010), "always": (0, 1440), "minute": (600, 600)}


def covering(seed, strength=3):
    """deterministic greedy covering array: every combination of values of `strength` parameters is in a row"""
    names = list(PARAMS)
    sizes = [len(PARAMS[n]) for n in names]
    todo = set()
    for cols in itertools.combinations(range(len(names)), strength):
        for vals in itertools.product(*[range(sizes[c]) for c in cols]):
            todo.add((cols, vals))
    state = [seed * 2654435761 % 2**32 + 1]

    def rnd(n):
        state[0] = (state[0] * 1103515245 + 12345) % 2**31
        return (state[0] >> 8) % n

    subsets = list(itertools.combinations(range(len(names)), strength))
    rows = []
    order = sorted(todo)
    nxt = 0
    while todo:
        while order[nxt] not in todo:
            nxt += 1
        cols, vals = order[nxt]
        best = None
        for _ in range(12):
            row = [rnd(s) for s in sizes]
            for c, v in zip(cols, vals):
                row[c] = v
            gain = sum((cs, tuple(row[c] for c in cs)) in todo for cs in subsets)
            if best is None or gain > best[0]:
                best = (gain, row)
        row = best[1]
        for cs in subsets:
            todo.discard((cs, tuple(row[c] for c in cs)))
        rows.append(row)
    return rows


def build(row):
    """(spec of the appliance, peak range) of a row of the covering array"""
    v = {n: PARAMS[n][i] for n, i in zip(PARAMS, row)}
    ws = WINDOWS[v["windows"]]
    kw = {f"window_{i + 1}": w for i, w in enumerate(ws)}
    a = App(num_windows=len(ws), **kw)
    for k in ("random_var_w", "number", "power", "func_time", "time_fraction_random_variability", "fixed", "fixed_cycle", "continuous_duty_cycle",
              "occasional_use", "flat", "thermal_p_var"):
        a[k] = v[k]
    # a longer time of use is refused by the definition
    a["func_time"] = min(a["func_time"], sum(e - s for s, e in ws))
    a["func_cycle"] = max(1, a["func_time"]) if v["func_cycle"] == "time" else v["func_cycle"]
    if v["kind"] == "pref":
        a["pref_index"] = 1
    elif v["kind"] == "week":
        a["wd_we_type"] = 0
    if v["fixed_cycle"]:
        p1, t1, p2, t2 = CYCLES[v["cycle"]]
        s, e = ws[0]
        mid = (s + e) // 2
        cws = {
            "all": ((0, 1440), (0, 0)), "none": ((300, 301), (1300, 1301)), "part": ((s, max(s + 1, mid)), (0, 0)),
            "edges": ((max(0, s - 1), s), (e, min(1440, e + 1))),
        }
        for c in range(1, v["fixed_cycle"] + 1):
            a[f"p_{c}1"], a[f"t_{c}1"], a[f"p_{c}2"], a[f"t_{c}2"], a[f"r_c{c}"] = p1, t1, p2, t2, v["r_c"]
            if v["cw"] != "default":
                w = cws[v["cw"]]
                a[f"cw{c}1"], a[f"cw{c}2"] = w
            elif c > 1:
                a[f"cw{c}1"] = (0, 1440)
    return a, PEAKS[v["peak"]]


def fits(app):
    """(can the ValueError of func_cycle be raised, must it be raised when the appliance is used)"""
    lens = []
    for s, e in app.windows:
        ls = [max(0, b - a) for a, b in extreme_windows((s, e), app.random_var_w)]
        lens.append((min(ls), max(ls)))
    low, high = sum(x for x, _ in lens), sum(x for _, x in lens)
    return int(0.99 * low) < app.func_cycle, int(0.99 * high) < app.func_cycle


def extreme_windows(w, var):
    s, e = w
    v = int(var * (e - s))
    for a in (s - v, s, s + v):
        for b in (e - v, e, e + v):
            lo = max(a, 0)
            yield lo, max(lo, min(b, 1440))


GROUP = 4


def cases(tier):
    out = []
    for seed in (1,) if tier == "quick" else (1, 2):
        rows = covering(seed)
        for i in range(0, len(rows), GROUP):
            out.append((f"cover{seed}-{i}", ("cover", tuple(map(tuple, rows[i:i + GROUP])), tier)))
    for i in range(len(unfair_apps())):
        for default in ("first", "last", "mid"):
            out.append((f"unfair-{i}-{default}", ("unfair", i, default, tier)))
    out += [(f"copies-{n}", ("copies", n, tier)) for n in (1, 2, 5)]
    return out


def run_case(case, res):
    warnings.simplefilter("ignore")
    globals()[case[0] + "_case"](case, res)


def judge(out, app, may, must, res, tag, choices):
    """does the outcome of an execution satisfy the property"""
    if isinstance(out, Crash):
        if out.type == "ValueError" and "func_cycle" in str(out) and may:
            return True
        res.violate(f"{tag}: {out!r}\n{out.tb}", choices)
        return False
    if not isinstance(out, np.ndarray) or out.shape != (1440,):
        res.violate(f"{tag}: gives {type(out).__name__} {getattr(out, 'shape', '')}", choices)
        return False
    if not np.isfinite(out).all() or (out < 0).any():
        m = int(np.flatnonzero(~np.isfinite(out) | (out < 0))[0])
        res.violate(f"{tag}: {out[m]} W at minute {m}", choices)
        return False
    if must and out.any():
        res.violate(f"{tag}: func_cycle cannot fit in the windows, a profile is given nevertheless", choices)
        return False
    return True


def cover_case(case, res):
    _, rows, tier = case
    for row in rows:
        app, peak = build(row)
        may, must = fits(app)
        user = make_user([app], user_preference=2)
        tag = "appliance " + ", ".join(f"{k}={'series' if k == 'power' and isinstance(v, list) else v}" for k, v in app.items() if App.DEFAULTS.get(k) != v)
        for default in ("first", "mid", "last", "spread"):
            args = dict(default=default, sparse=3 if tier == "quick" else 4, extremes=True, gauss_cells=6, cells=2, fair_after=60, horizon=30000,
                        cells01=2)
            ctl, _ = run_once(lambda: single_profile(user, peak, 0, 3), **args)
            many = len(ctl.trace) > 300

            def visit(out, weight, choices):
                return not judge(out, app, may, must, res, tag, choices)

            st = deviations(
                lambda: single_profile(user, peak, 0, 3), visit, d=1 if tier == "quick" else 2,
                max_exec=(8 if many else 45) if tier == "quick" else (40 if many else 400), **args,
            )
            st.complete = True
            res.stats.add(st)
            res.validated += st.executions
            if res.bad:
                return
    res.sample = dict(appliance=tag, executions=res.stats.executions)


def unfair_apps():
    """appliances whose switch-on events often miss the duty cycle windows"""
    out = []
    base = dict(power=50, fixed="yes", p_11=100, t_11=2, p_12=10, t_12=1)
    for cont in (0, 1):
        for fc in (1, 3):
            # almost every start reaches the cycle window, but only when the event is long enough
            out.append(App(window_1=(0, 1440), func_time=400, func_cycle=fc, fixed_cycle=1, cw11=(1000, 1010), continuous_duty_cycle=cont, **base))
            out.append(App(window_1=(0, 300), func_time=250, func_cycle=fc, fixed_cycle=1, cw11=(299, 300), continuous_duty_cycle=cont, **base))
            out.append(App(window_1=(200, 300), window_2=(400, 500), num_windows=2, func_time=60, func_cycle=fc, fixed_cycle=2, cw11=(199, 200),
                           cw21=(499, 500), p_21=5, t_21=1, p_22=4, t_22=1, random_var_w=0.1, continuous_duty_cycle=cont, **base))
            out.append(App(window_1=(0, 1440), func_time=30, func_cycle=fc, fixed_cycle=3, cw11=(0, 1), cw21=(720, 721), cw31=(1438, 1439), p_21=5,
                           t_21=1, p_22=4, t_22=1, p_31=5, t_31=1, p_32=4, t_32=1, continuous_duty_cycle=cont, **base))
            out.append(App(window_1=(0, 100), func_time=90, func_cycle=fc, fixed_cycle=1, cw11=(1000, 1010), continuous_duty_cycle=cont, **base))
    return out


def unfair_case(case, res):
    """long runs of unlucky draws: neither the recursion limit nor the state of the retries may turn them into an error"""
    _, i, default, tier = case
    app = unfair_apps()[i]
    may, must = fits(app)
    user = make_user([app])
    for fair in (50, 300, 1500, 6000):
        args = dict(default=default, extremes=True, cells=2, fair_after=fair, horizon=60000)
        for sparse in (None, 2, 3):
            ctl, out = run_once(lambda: single_profile(user), sparse=sparse, **args)
            res.stats.executions += 1
            res.stats.states += len(ctl.trace)
            res.stats.transitions += len(ctl.trace)
            res.stats.maxdepth = max(res.stats.maxdepth, len(ctl.trace))
            judge(out, app, may, must, res, f"unfair schedule ({default}, {fair} draws): {dict(app)}", None)
            res.validated += 1
            if res.bad:
                return
    # one departure at the beginning, then unlucky draws
    def visit(out, weight, choices):
        return not judge(out, app, may, must, res, f"unfair schedule ({default}): {dict(app)}", choices[:40])

    st = deviations(lambda: single_profile(user), visit, d=1, max_exec=40 if tier == "quick" else 400, sparse=3, default=default, extremes=True,
                    cells=2, fair_after=1200, horizon=60000)
    st.complete = True
    res.stats.add(st)


def copies_case(case, res):
    """users with several individuals and appliances, 3 days in a row on the same objects"""
    _, n, tier = case
    rows = covering(5, 2)
    for i in range(0, len(rows), 4):
        apps = []
        errors = False
        for row in rows[i:i + 4]:
            a, peak = build(row)
            errors = errors or fits(a)[0]
            apps.append(a)
        user = make_user(apps, num_users=n, user_preference=3)

        def run():
            total = np.zeros(1440)
            for day in (0, 5, 365):
                try:
                    user.generate_aggregated_load_profile(day, np.arange(peak[0], peak[1] + 1), day % 2)
                except ValueError as e:
                    if not (errors and "func_cycle" in str(e)):
                        raise
                    continue
                total = total + user.load
            return total

        for default in ("first", "mid", "last", "spread"):
            def visit(out, weight, choices):
                return not judge(out, None, False, False, res, f"user with the appliances {[dict(a, power=str(a['power'])[:9]) for a in apps]}", choices)

            st = deviations(run, visit, d=1, default=default, sparse=3, max_exec=12 if tier == "quick" else 60, extremes=True, gauss_cells=6, cells=2,
                            fair_after=60, horizon=60000, cells01=2)
            st.complete = True
            res.stats.add(st)
            res.validated += st.executions
            if res.bad:
                return
