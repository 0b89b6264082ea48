"""C11 parallel processing: equivalent to sequential for every schedule of the pool"""
import datetime
import random

import numpy as np

from checks.c08 import joint
from mc import pool, spec
from mc.explore import Crash, explore
from mc.lib import add_app, check_law, core
from mc.spec import App

BOUNDS = dict(
    quick="law: 0-9 tasks in 1-3 chunks, every schedule, every draw; results: up to 17 tasks in 5 chunks, every order "
    "of completion and every assignment to 3 workers",
    thorough="law: 0-9 tasks in 1-3 chunks, every schedule, every draw; results: up to 24 tasks in 6 chunks, every order "
    "of completion and every assignment to 3 workers",
)
ASSUMPTIONS = [
    "multiprocessing.Pool is modelled by mc/pool.py (pickled chunks, generator state inherited at fork); "
    "the model is compared with the real pool on the same seeded tasks",
    "draws are abstracted to the cells described in mc/rng.py",
]
CASE_TIMEOUT = 400


def one(i, **kw):
    a = dict(name=f"a{i}", power=10**i, fixed="yes", func_time=1, window_1=(5 + 3 * i, 7 + 3 * i))
    a.update(kw)
    return a


def flat(i, **kw):
    return one(i, flat="yes", func_time=1, window_1=(700 + i, 702 + i), **kw)


SERIES = [float(3 + 5 * d) for d in range(366)]

# (list of users (individuals, preference, appliances), days)
LAW = {
    "single": ([(1, 0, [one(0)])], 1),
    "two-apps": ([(1, 0, [one(0), one(1)])], 1),
    "two-days": ([(1, 0, [one(0)])], 2),
    "two-individuals": ([(2, 0, [one(0)])], 1),
    "two-users": ([(1, 0, [one(0)]), (1, 0, [one(1)])], 1),
    "same-app-3": ([(3, 0, [one(0)])], 1),
    "pref-one": ([(1, 2, [one(0, pref_index=1)])], 1),
    "pref-two": ([(1, 2, [one(0, pref_index=1), one(1, pref_index=2)])], 1),
    "pref-three": ([(1, 3, [one(0, pref_index=1), one(1, pref_index=2), one(2, pref_index=3)])], 1),
    "pref-mixed": ([(1, 2, [one(0, pref_index=2), one(1), one(2, pref_index=1)])], 1),
    "pref-days": ([(1, 2, [flat(0, pref_index=1), flat(2, pref_index=2)])], 2),
    "pref-individuals": ([(2, 2, [flat(0, pref_index=1), flat(2, pref_index=2)])], 1),
    "pref-users": ([(1, 2, [flat(0, pref_index=1), flat(2, pref_index=2)]), (1, 0, [one(1)])], 1),
    "pref-chunks": ([(1, 2, [flat(0, pref_index=1), flat(1, pref_index=2), flat(2), flat(3),
                             flat(4, pref_index=1), flat(5, pref_index=2)])], 1),
    "chunks-2": ([(1, 0, [one(0), flat(1), flat(2), flat(3), one(4)])], 1),
    "chunks-2-days": ([(1, 0, [flat(1), flat(2), flat(3), one(0)])], 2),
    "chunks-3": ([(1, 0, [one(0), flat(1), flat(2), flat(3), one(4), flat(5), flat(6), flat(7), one(2)])], 1),
    "chunks-prefs": ([(1, 2, [flat(0, pref_index=1), flat(1), flat(2), flat(3), one(4, pref_index=2)])], 1),
    "occasional": ([(1, 0, [flat(0, occasional_use=0.5), flat(2, occasional_use=0.5)])], 1),
    "duty": ([(1, 0, [one(0, fixed_cycle=1, p_11=5, t_11=1, p_12=3, t_12=1, func_time=2, func_cycle=2,
                          window_1=(5, 9))])], 1),
    "coincidence": ([(1, 0, [one(0, number=2, fixed="no")])], 2),
    # the power of the day, the type of the day, the peak range
    "series": ([(1, 0, [one(0, power=SERIES)])], 3),
    "series-flat": ([(1, 0, [flat(0, power=SERIES), flat(2, power=SERIES[::-1])])], 3),
    "series-events": ([(2, 0, [one(0, power=SERIES)])], 2),
    "series-prefs": ([(1, 2, [flat(0, power=SERIES, pref_index=1), flat(2, pref_index=2)])], 2),
    "weekend": ([(1, 0, [one(0, wd_we_type=1)])], 3, dict(start="2024-03-01")),
    "weekday": ([(1, 0, [one(0, wd_we_type=0)])], 3, dict(start="2024-03-01")),
    "week": ([(1, 0, [flat(0, wd_we_type=0), flat(2, wd_we_type=1)])], 4, dict(start="2024-03-01")),
    "week-users": ([(1, 0, [flat(0, wd_we_type=0)]), (2, 0, [flat(2, wd_we_type=1)])], 4, dict(start="2024-03-01")),
    "peak": ([(1, 0, [one(0, number=2, fixed="no")])], 1, dict(peak=(0, 1439))),
    "peak-touch": ([(1, 0, [one(0, number=2, fixed="no", func_time=2, func_cycle=2, window_1=(5, 9))])], 1,
                   dict(peak=(8, 20))),
    "thermal": ([(1, 0, [one(0, thermal_p_var=0.5), one(1)])], 2),
    "windows": ([(1, 0, [one(0, random_var_w=0.17, window_1=(5, 11))])], 1),
    "two-windows": ([(1, 0, [one(0, num_windows=2, func_time=2, window_2=(30, 32))])], 1),
    "variable-time": ([(1, 0, [one(0, func_time=2, func_cycle=1, time_fraction_random_variability=0.5, window_1=(5, 10))])], 1,
                      dict(cells=4)),
    "unfit": ([(1, 0, [flat(0, number=3)]), (1, 0, [one(0, number=0), one(1, func_time=0)])], 2),
    "duty-two": ([(1, 0, [one(0, fixed_cycle=2, p_11=5, t_11=1, p_12=3, t_12=1, p_21=50, t_21=1, p_22=30, t_22=2,
                              func_time=2, func_cycle=2, window_1=(5, 9), cw11=(0, 6), cw21=(7, 20))])], 1),
    "none": ([], 1),
    "no-appliances": ([(1, 0, [])], 2),
    "no-individuals": ([(0, 0, [one(0)])], 1),
}


# the ways to ask for the profiles of a usecase in parallel: flattened (even positions), one row per day (odd ones)
ENTRIES = [
    lambda uc: uc.generate_daily_load_profiles_parallel(),
    lambda uc: uc.generate_daily_load_profiles_parallel(flat=False),
    lambda uc: uc.generate_daily_load_profiles_parallel(None, True),
    lambda uc: uc.generate_daily_load_profiles(flat=False),
    lambda uc: uc.generate_daily_load_profiles(flat=True, verbose=True),
]


def build(users, days, parallel, seed=None, start="2024-03-01", peak=None):
    c = core()
    us = []
    for i, (n, pref, apps) in enumerate(users):
        u = c.User(f"u{i}", n, pref)
        for a in apps:
            add_app(u, a)
        us.append(u)
    uc = c.UseCase(users=us, date_start=start, parallel_processing=parallel, random_seed=seed)
    return uc


def cases(tier):
    out = []
    for k in LAW:
        out.append((f"law-{k}", ("law", k)))
    for n in (1, 4, 5, 9, 13) + ((17,) if tier == "quick" else (17, 21)):
        for pref in (0, 2) if n != 17 or tier == "thorough" else (2,):
            out.append((f"schedules-{n}-pref{pref}", ("schedules", n, pref, tier)))
    for k in range(4):
        out.append((f"real-{k}", ("real", k)))
    return out


def law_case(case, res):
    users, days, *opts = LAW[case[1]]
    opts = opts[0] if opts else {}
    start = opts.get("start", "2024-03-01")
    peak = opts.get("peak", (2000, 2009))
    cells = 6 if case[1] in ("coincidence", "peak", "peak-touch") else opts.get("cells", 2)
    cells01 = 2 if case[1] == "occasional" else 1
    uc = build(users, days, True, start=start)
    uc.initialize(num_days=days)
    uc.peak_time_range = np.arange(peak[0], peak[1] + 1)
    expected = {(): 1.0}
    for d in range(days):
        date = datetime.date.fromisoformat(start) + datetime.timedelta(days=d)
        day_law = {(): 1.0}
        for n, pref, apps in users:
            if not apps:
                continue
            objs = [App(**a) for a in apps]
            one_law = joint(objs, pref, 1 if date.isoweekday() >= 6 else 0, cells, peak, d)
            day_law = spec.convolve([day_law] + [one_law] * n)
        nxt = {}
        for k, p in expected.items():
            for day, q in day_law.items():
                key = k + tuple((m + 1440 * d, round(v, 2)) for m, v in day)
                nxt[key] = nxt.get(key, 0) + p * q
        expected = nxt

    ratios = tuple({a["thermal_p_var"] for u in users for a in u[2] if a.get("thermal_p_var")})

    def run(uc):
        return uc.generate_daily_load_profiles().reshape(-1)

    # discover the number of chunks
    with pool.controlled_pool() as sched:
        explore(lambda: run(uc), lambda *a: True, cells=cells, max_exec=1)
    n = sched.chunks
    todo = list(pool.schedules(n, 3)) if n > 1 else [(None, None)]
    for order, owners in todo:
        with pool.controlled_pool(pool.Schedule(order, owners)):
            check_law(res, lambda: uc, run, expected, f"{res.case} order={order} owners={owners}", cells=cells,
                      cells01=cells01, canon=spec.canon_sum, expected_errors=(), ratios=ratios)
        if res.bad:
            return
    if days > 1 or case[1] == "single":  # the other ways to ask for the same profiles
        for k, ask in enumerate(ENTRIES):
            if k and not case[1] in ("single", "series", "week"):
                continue

            def other(uc):
                out = ask(uc)
                if out.shape != ((1440 * days,) if k % 2 == 0 else (days, 1440)):
                    return np.full(1440 * days, -1.0)
                return out.reshape(-1)

            with pool.controlled_pool():
                check_law(res, lambda: uc, other, expected, f"{res.case} entry={k}", cells=cells, cells01=cells01,
                          canon=spec.canon_sum, expected_errors=(), ratios=ratios)
    # and sequentially
    uc.parallel_processing = False
    check_law(res, lambda: uc, run, expected, f"{res.case} sequential", cells=cells, cells01=cells01,
              canon=spec.canon_sum, expected_errors=(), ratios=ratios)


def stochastic(n, pref):
    """a usecase of n tasks"""
    apps = []
    for i in range(n):
        apps.append(dict(
            name=f"s{i}", power=3.7 + i, number=1 + i % 3, func_time=8 + i % 3, func_cycle=2 + i % 4,
            time_fraction_random_variability=0.3, window_1=(300 + 10 * i, 330 + 12 * i), random_var_w=0.2,
            thermal_p_var=0.2, pref_index=(i % 3 if pref else 0),
        ))
    return [(1, pref, apps)]


def schedules_case(case, res):
    _, n, pref, tier = case
    results = {}
    users = build(stochastic(n, pref), 1, True).users

    def result(order, owners, cpus):
        random.seed(99)  # what the process drew before does not matter for a seeded usecase
        uc = core().UseCase(users=users, date_start="2024-03-01", parallel_processing=True, random_seed=7)
        uc.initialize(num_days=1)
        with pool.controlled_pool(pool.Schedule(order, owners), cpus=cpus) as sched:
            out = uc.generate_daily_load_profiles()
        return out, sched.chunks

    ref, chunks = result(None, None, 3)
    if not (ref > 0.01).any():
        res.violate(f"{res.case}: nothing generated")
    todo = []
    if chunks > 1:
        perms = True if chunks <= 5 else tier == "thorough"
        for order, owners in pool.schedules(chunks, 3, perms):
            if chunks >= 4 and not (
                order == tuple(range(chunks)) or owners in ((0,) * chunks, tuple(i % 3 for i in range(chunks)))
            ):
                continue  # every order with 2 assignments, every assignment with the order of submission
            todo.append((order, owners, 3))
    for cpus in (1, 2, 8):
        todo.append((None, None, cpus))
    for order, owners, cpus in todo:
        try:
            out, k = result(order, owners, cpus)
        except Exception as e:  # noqa
            res.violate(f"{res.case} order={order} owners={owners} cpus={cpus}: {type(e).__name__} {e}")
            return
        res.stats.executions += 1
        res.stats.states += k + 1
        res.stats.transitions += k
        results[out.tobytes()] = (order, owners, cpus)
        if not np.array_equal(out, ref):
            i = int(np.flatnonzero(out != ref)[0])
            res.violate(
                f"{res.case}: order of completion {order}, workers {owners}, {cpus} cpus: {out[i]!r} W at minute {i} "
                f"instead of {ref[i]!r} W with the order of submission", dict(order=order, owners=owners))
            return
    res.validated += len(todo)
    res.sample = dict(tasks=n, chunks=chunks, schedules=len(todo), distinct_results=len(results) or 1)


def real_case(case, res):
    """the real pool gives what the controlled one gives"""
    k = case[1]
    users = [stochastic(6, 2), stochastic(3, 0) + [(2, 0, [flat(1)])], [(3, 3, [one(0), one(1, pref_index=2)])],
             [(1, 0, [flat(i) for i in range(5)])]][k]
    seed = [3, 0, None, 5][k]

    def run():
        uc = build(users, 2, True, seed=seed)
        if seed is None:
            random.seed(11)
        uc.initialize(num_days=2)
        return uc.generate_daily_load_profiles(flat=False)

    real = run()
    with pool.controlled_pool():
        modelled = run()
    if not np.array_equal(real, modelled):
        # not a verdict on the pool model only: with independent seeds both must agree
        i = tuple(np.argwhere(real != modelled)[0])
        res.violate(f"{res.case}: {real[i]!r} W at {i} with the process pool, {modelled[i]!r} W with the tasks executed "
                    "in order by one worker")
    again = run()
    if not np.array_equal(real, again):
        res.violate(f"{res.case}: two runs of the process pool with the same seed differ")
    res.stats.executions += 3
    res.stats.states += 3
    res.stats.transitions += 2
    res.validated += 2


def run_case(case, res):
    dict(law=law_case, schedules=schedules_case, real=real_case)[case[0]](case, res)
