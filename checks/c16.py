"""C16 the peak time range follows the published law around the maximum of the theoretical profile"""
import itertools
import math
import os

import numpy as np
import pandas as pd

from mc import boot, pool, spec
from mc.explore import Crash, deviations, explore, run_once
from mc.lib import core

BOUNDS = dict(
    quick="all usecases of up to 2 users x 2 appliances over an alphabet of 8 windows, 3 powers and counts (maximum profile); "
    "30 of them with every draw of the peak range (cells of half a minute within 4 deviations); 11 ways to get the range; histories of up to 2 of 10 changes between initializations",
    thorough="all usecases of up to 2 users x 3 appliances over an alphabet of 8 windows, 4 powers and counts (maximum profile); "
    "60 of them with every draw of the peak range (cells of half a minute within 4 deviations); 11 ways to get the range; histories of up to 3 of 10 changes between initializations",
)
ASSUMPTIONS = ["gaussian draws further than 4 deviations are represented by one value per side"]
CASE_TIMEOUT = 700

WINDOWS = [
    [(10, 20)], [(15, 30)], [(0, 1)], [(1439, 1440)], [(0, 1440)], [(5, 8), (20, 22)], [(5, 12), (10, 15)],
    [(3, 4), (30, 32), (60, 61)],
]
POWERS = [100, 0, [100] * 183 + [300] * 183, 50]


def app_kw(wins, power, number, **kw):
    d = dict(number=number, power=pd.DataFrame({"p": power}) if isinstance(power, list) else power, num_windows=len(wins),
             func_time=0, **kw)
    for i, w in enumerate(wins):
        d[f"window_{i + 1}"] = list(w)
    return d


def build(users, **kw):
    out = []
    for num_users, apps in users:
        u = core().User(f"u{len(out)}", num_users)
        for i, a in enumerate(apps):
            u.add_appliance(**dict(app_kw(*a), name=f"a{i}"))
        out.append(u)
    return core().UseCase(users=out, **kw)


def mean_power(p):
    return sum(p) / len(p) if isinstance(p, list) else p


def max_profile(apps):
    prof = [0.0] * 1440
    for wins, power, number in apps:
        minutes = set()
        for a, b in wins:
            minutes.update(range(a, b))
        for m in minutes:
            prof[m] += number * mean_power(power)
    return np.array(prof)


def total_profile(users):
    tot = np.zeros(1440)
    for n, apps in users:
        tot = tot + n * max_profile(apps)
    return tot


def normal_cells(mu, sigma):
    """{rounded value: probability} of round(N(mu, sigma)) within 4 deviations"""
    if sigma == 0:
        return {round(mu): 1.0}
    out = {}
    for k in range(math.floor(mu - 4 * sigma), math.ceil(mu + 4 * sigma) + 1):
        out[k] = spec._phi((k + 0.5 - mu) / sigma) - spec._phi((k - 0.5 - mu) / sigma)
    return out


def range_law(users, pe):
    """law of (peak time, half width), without the far tails"""
    tot = total_profile(users)
    win = [m for m in range(1440) if tot[m] == tot.max()]
    mu = round(sum(win) / len(win))
    sd = (win[-1] - win[0]) / 3
    out = {}
    for t, p in normal_cells(mu, sd).items():
        s = abs(pe * t)
        for w, q in (half_width(s)).items():
            k = (t - w, t + w - 1)
            out[k] = out.get(k, 0) + p * q
    return out


def half_width(s):
    out = {}
    if s == 0:
        return {1: 1.0}
    for k in range(0, math.ceil(4 * s) + 1):
        lo = max(k - 0.5, 0)
        p = 2 * (spec._phi((k + 0.5) / s) - spec._phi(lo / s))
        w = max(k, 1)
        out[w] = out.get(w, 0) + p
    return out


def canon_range(r):
    r = list(int(x) for x in r)
    if len(r) == 0 or r != list(range(r[0], r[-1] + 1)):
        return ("not a range", tuple(r[:5]))
    return (r[0], r[-1])


def compare(res, label, fn, users, pe, max_exec=120000):
    dist = {}

    def visit(out, w, choices):
        if isinstance(out, Crash):
            res.violate(f"{label}: {out!r}\n{out.tb}", choices)
            return True
        k = canon_range(out)
        if k[0] == "not a range":
            res.violate(f"{label}: the peak range is {k}", choices)
            return True
        dist[k] = dist.get(k, 0) + w
        return False

    st = explore(fn, visit, max_exec=max_exec, gauss_cells=10**9)
    res.stats.add(st)
    if res.bad or not st.complete:
        if st.divergences:
            res.violate(f"{label}: the draws differ when the same choices are replayed")
        assert st.complete or res.bad, f"{label}: more than {max_exec} executions"
        return
    want = range_law(users, pe)
    # the far tails are represented by single values
    total = worst = 0.0
    worst_key = None
    for k in set(dist) | set(want):
        d = abs(dist.get(k, 0) - want.get(k, 0))
        total += d
        if d > worst:
            worst, worst_key = d, k
    if total > 1e-3:
        res.violate(f"{label}: the peak range {worst_key} has probability {dist.get(worst_key, 0):.6g} instead of "
                    f"{want.get(worst_key, 0):.6g} (total difference {total:.3g})")
        return
    res.validated += len(want)
    if res.sample is None:
        res.sample = dict(label=label, ranges=len(dist), executions=st.executions)


def U(n, *apps):
    return (n, list(apps))


LAWS = [
    # users, peak_enlarge
    ([U(1, ([(10, 20)], 100, 1))], 0.15),
    ([U(1, ([(10, 20)], 100, 1))], 0.0),
    ([U(1, ([(10, 20)], 100, 1))], 0.5),
    ([U(1, ([(0, 1)], 100, 1))], 0.15),
    ([U(1, ([(0, 10)], 100, 1))], 0.15),
    ([U(1, ([(0, 30)], 100, 1))], 0.3),
    ([U(1, ([(1439, 1440)], 100, 1))], 0.02),
    ([U(1, ([(1430, 1440)], 100, 1))], 0.01),
    ([U(1, ([(700, 704)], 100, 1))], 0.05),
    ([U(1, ([(700, 701)], 100, 1))], 0.15),
    ([U(2, ([(5, 8), (20, 22)], 100, 1))], 0.15),
    ([U(2, ([(5, 12), (10, 15)], 100, 1))], 0.15),
    ([U(1, ([(10, 20)], 100, 1), ([(15, 30)], 100, 1))], 0.15),
    ([U(1, ([(10, 20)], 100, 3), ([(25, 27)], 200, 2))], 0.15),
    ([U(3, ([(10, 12)], 100, 1)), U(1, ([(20, 25)], 200, 1))], 0.15),
    ([U(3, ([(10, 12)], 100, 1)), U(2, ([(20, 25)], 200, 1))], 0.15),
    ([U(1, ([(10, 12)], 150, 1)), U(1, ([(20, 25)], POWERS[2], 1))], 0.15),
    ([U(1, ([(10, 12)], 250, 1)), U(1, ([(20, 25)], POWERS[2], 1))], 0.15),
    ([U(1, ([(10, 12)], 100, 0), ([(20, 24)], 10, 1))], 0.15),
    ([U(1, ([(10, 11)], 100, 1), ([(14, 15)], 100, 1))], 0.15),
    ([U(1, ([(3, 4), (30, 32), (60, 61)], 100, 1))], 0.05),
    ([U(0, ([(10, 12)], 500, 1)), U(1, ([(20, 24)], 10, 1))], 0.15),
    ([U(1, ([(10, 16)], 100, 1)), U(1, ([(13, 18)], 100, 1)), U(1, ([(15, 40)], 100, 1))], 0.15),
    ([U(1, ([(15, 18)], 100, 1)), U(2)], 0.15),
    # plateaus close to the maximum
    ([U(1, ([(10, 12)], 100000, 1), ([(30, 33)], 100001, 1))], 0.15),
    ([U(1, ([(10, 12)], 10000000, 1), ([(30, 33)], 10000001, 1))], 0.15),
    ([U(1, ([(10, 12)], 1e12, 1)), U(1, ([(30, 33)], 1e12 + 1, 1))], 0.15),
    ([U(1, ([(10, 12)], 1e-9, 1)), U(1, ([(30, 33)], 2e-9, 1))], 0.15),
    ([U(1, ([(10, 12)], 0.25, 1), ([(30, 33)], 0.5, 1))], 0.15),
    ([U(1000, ([(10, 12)], 100, 1)), U(1, ([(12, 14)], 100001, 1))], 0.15),
]
MORE = [([U(1, ([(a, a + n)], 100, 1))], pe) for a in (0, 7, 33, 120) for n in (1, 2, 5, 14) for pe in (0.05, 0.2, 1.0) if (a + n) * pe < 60]


def cases(tier):
    out = [(f"law-{i}", ("law", i)) for i in range(len(LAWS))]
    if tier != "quick":
        out += [(f"more-{i}", ("more", i)) for i in range(len(MORE))]
    out += [(f"max-{i}-{j}", ("max", i, j, tier)) for i in range(len(WINDOWS)) for j in range(len(WINDOWS))]
    out += [(f"path-{p}", ("path", p)) for p in PATHS]
    out += [("no-appliance", ("empty", None))]
    out += [(f"history-{o}", ("history", o, 2 if tier == "quick" else 3)) for o in OPS]
    out += [(f"used-{m}-{t}", ("used", m, t)) for m in ("sequential", "parallel", "user") for t in (9, 10, 12, 14, 15)]
    return out


def run_case(case, res):
    globals()[case[0] + "_case"](case, res)


def law_case(case, res, items=None):
    users, pe = (items or LAWS)[case[1]]
    uc = build(users, peak_enlarge=pe)
    compare(res, f"users {str(users)[:150]}, peak_enlarge {pe}", lambda: uc.calc_peak_time_range(), users, pe)


def more_case(case, res):
    law_case(case, res, MORE)


def max_case(case, res):
    """maximum profile of users and usecases, appliance by appliance"""
    _, i, j, tier = case
    powers = POWERS[:3] if tier == "quick" else POWERS
    numbers = (0, 1, 3)
    for p, q, n, m, users in itertools.product(powers, powers, numbers, numbers, (1, 2)):
        apps = [(WINDOWS[i], p, n), (WINDOWS[j], q, m)]
        if i == j and p == q and n == m:
            continue
        uc = build([(users, apps)])
        u = uc.users[0]
        res.stats.executions += 1
        res.stats.states += 1
        res.stats.transitions += 3
        for a, ref in zip(u.App_list, apps):
            got = a.maximum_profile
            if got.shape != (1440,) or not np.array_equal(got, max_profile([ref])):
                res.violate(f"maximum profile of the appliance {str(ref)[:100]} is wrong at minute {np.flatnonzero(got != max_profile([ref]))[:3]}")
                return
        if not np.array_equal(u.maximum_profile, users * max_profile(apps)):
            res.violate(f"maximum profile of the user {users} x {str(apps)[:150]} is wrong")
            return
        res.validated += 3
    if tier != "quick":
        for k, n in itertools.product(range(len(WINDOWS)), numbers):
            apps = [(WINDOWS[i], 100, 1), (WINDOWS[j], 70, 2), (WINDOWS[k], 30, n)]
            u = build([(2, apps)]).users[0]
            res.stats.executions += 1
            if len(u.App_list) == 3 and not np.array_equal(u.maximum_profile, 2 * max_profile(apps)):
                res.violate(f"maximum profile of the user 2 x {str(apps)[:150]} is wrong")
                return
            res.validated += 1


# changes of a definition between two initializations: (real usecase, its description)
def op_users(uc, ref):
    uc.users[1].num_users = ref[1][0] = 9 if ref[1][0] != 9 else 1


def op_number(uc, ref):
    n = 8 if ref[0][1][0][2] != 8 else 1
    uc.users[0].App_list[0].number = n
    ref[0][1][0] = (*ref[0][1][0][:2], n)


def op_power(uc, ref):
    w, p, n = ref[1][1][0]
    p = 700 if p != 700 else 40
    uc.users[1].App_list[0].power = np.full(366, float(p))
    ref[1][1][0] = (w, p, n)


def op_steps(uc, ref):
    """the values of a power are changed in place"""
    w, p, n = ref[0][1][0]
    a = uc.users[0].App_list[0]
    a.power[:] = 1.0
    ref[0][1][0] = (w, 1, n)


def op_window(uc, ref):
    w, p, n = ref[0][1][0]
    w = [(16, 19)] if w != [(16, 19)] else [(9, 12)]
    uc.users[0].App_list[0].window_1 = np.array(w[0])
    ref[0][1][0] = (w, p, n)


def op_minutes(uc, ref):
    """a window is changed in place"""
    w, p, n = ref[1][1][0]
    b = w[0][1] + 2
    uc.users[1].App_list[0].window_1[1] = b
    ref[1][1][0] = ([(w[0][0], b)], p, n)


def op_appliance(uc, ref):
    k = len(ref[1][1])
    a = ([(24 + 3 * k, 26 + 3 * k)], 300 * k, 1)
    uc.users[1].add_appliance(**dict(app_kw(*a), name=f"new{k}"))
    ref[1][1].append(a)


def op_user(uc, ref):
    k = len(ref)
    a = ([(2 * k, 2 * k + 3)], 400, k)
    u = core().User(f"new{k}", 2)
    u.add_appliance(**dict(app_kw(*a), name="a"))
    uc.add_user(u)
    ref.append([2, [a]])


def op_swap(uc, ref):
    """an appliance is replaced: as many as before"""
    a = ([(13, 15)], 555, 1)
    u = uc.users[0]
    u.App_list.pop()
    u.add_appliance(**dict(app_kw(*a), name="swapped"))
    ref[0][1][-1] = a


def op_dates(uc, ref):
    """no change of the users"""
    uc.date_start = "2024-05-05"
    uc.date_end = "2024-05-06"


OPS = {f.__name__[3:]: f for f in (op_users, op_number, op_power, op_steps, op_window, op_minutes, op_appliance, op_user, op_swap, op_dates)}
HISTORY = [U(1, ([(10, 13)], 100, 1), ([(15, 17)], 20, 1)), U(3, ([(20, 23)], 30, 1))]


def history_case(case, res):
    """sequences of changes and initializations: the range is always the one of the current definition"""
    _, first, depth = case
    seen = set()
    for n in range(depth):
        for rest in itertools.product(OPS, repeat=n):
            for how in ("force", "calc"):
                uc = build(HISTORY, peak_enlarge=0.1, date_start="2024-03-01", date_end="2024-03-01")
                ref = [[n, list(apps)] for n, apps in HISTORY]

                def fn():
                    if how == "calc":
                        return uc.calc_peak_time_range()
                    uc.initialize(force=True)
                    return uc.peak_time_range

                run_once(fn, default="mid", gauss_cells=100)
                for o in (first, *rest):
                    OPS[o](uc, ref)
                    if o is not (first, *rest)[-1]:
                        run_once(fn, default="mid", gauss_cells=100)
                label = f"{how} after the changes {' '.join((first, *rest))}"
                users = [(n, apps) for n, apps in ref]
                res.stats.transitions += 1 + len(rest)
                prof = sum(u.maximum_profile for u in uc.users)
                if not np.array_equal(prof, total_profile(users)):
                    res.violate(f"{label}: the theoretical profile is wrong at minute {np.flatnonzero(prof != total_profile(users))[:3]}")
                    return
                # the same changes in another order often have the same result: the law is compared along every history at depth 2
                key = (how, str(users))
                if n < 2 or key not in seen:
                    compare(res, label, fn, users, 0.1)
                    seen.add(key)
                else:
                    want = range_law(users, 0.1)
                    got = canon_range(run_once(fn, default="mid", gauss_cells=10**9)[1])
                    if want.get(got, 0) == 0:
                        res.violate(f"{label}: the range {got} is impossible")
                if res.bad:
                    return
    res.sample = dict(first=first, depth=depth, how=["force", "calc"])


def empty_case(case, res):
    """without appliances, every minute is at the maximum (0): only bounds are looked at"""
    for users in ([], [U(1)], [U(1, ([(10, 20)], 0, 1))]):
        uc = build(users)
        def visit(out, w, choices):
            if isinstance(out, Crash):
                res.violate(f"{users}: {out!r}", choices)
                return True
            k = canon_range(out)
            if k[0] == "not a range" or (k[1] - k[0]) % 2 != 1 or not -4000 < (k[0] + k[1] + 1) // 2 < 6000:
                res.violate(f"{users}: peak range {k}", choices)
                return True
            return False

        st = deviations(lambda: uc.calc_peak_time_range(), visit, d=2, extremes=True, gauss_cells=20)
        res.stats.add(st)
        # the mean of the peak time is the middle of the day
        dist = {}

        def visit2(out, w, choices):
            k = canon_range(out)
            t = (k[0] + k[1] + 1) / 2
            dist[t] = dist.get(t, 0) + w
            return False

        explore(lambda: uc.calc_peak_time_range(), visit2, gauss_cells=40)
        mean = sum(t * w for t, w in dist.items())
        sd = math.sqrt(sum((t - mean) ** 2 * w for t, w in dist.items()))
        if abs(mean - 720) > 8 or abs(sd - 1439 / 3) > 25:
            res.violate(f"{users}: the peak time has mean {mean:.0f} and deviation {sd:.0f} instead of 720 and {1439 / 3:.0f}")
        res.validated += len(dist)


PATHS = ("initialize", "ctor-dates", "force", "initialize-peak", "setter", "argument", "after-generation", "load", "user-alone",
         "added-after", "power-length")
BASE = [U(2, ([(10, 16)], 100, 1), ([(12, 14)], 50, 2))]


def path_case(case, res):
    """whatever the way the range is obtained, its law is the same"""
    p = case[1]
    C = core()
    pe = 0.15
    if p == "initialize":
        def fn():
            uc = build(BASE)
            uc.initialize(num_days=1)
            return uc.peak_time_range
    elif p == "ctor-dates":
        def fn():
            return build(BASE, date_start="2024-03-01", date_end="2024-03-01").peak_time_range
    elif p == "force":
        def fn():
            uc = build(BASE, date_start="2024-03-01")
            uc.peak_time_range = np.arange(3)
            uc.initialize(num_days=1, force=True)
            return uc.peak_time_range
    elif p == "initialize-peak":
        pe = 0.4

        def fn():
            uc = build(BASE)
            uc.initialize(num_days=1, peak_enlarge=0.4)
            return uc.peak_time_range
    elif p == "setter":
        pe = 0.3

        def fn():
            uc = build(BASE)
            uc.peak_enlarge = 0.3
            return uc.peak_time_range
    elif p == "argument":
        # the range is drawn twice by this call: the first one is left to a fixed schedule
        pe = 0.3
        uc = build(BASE)
        run_once(lambda: uc.calc_peak_time_range(peak_enlarge=0.3), default="mid")

        def fn():
            return uc.calc_peak_time_range()
    elif p == "after-generation":
        uc = build(BASE)
        uc.users[0].App_list[0].func_time = 3
        uc.users[0].App_list[1].func_time = 1
        uc.initialize(num_days=2)
        uc.generate_daily_load_profiles()
        uc.users[0].generate_single_load_profile()

        def fn():
            uc.initialize(num_days=1, force=True)
            return uc.peak_time_range
    elif p == "load":
        path = os.path.join(boot.scratch_dir("c16"), "in")
        build(BASE).save(path)
        uc = C.UseCase()
        uc.load(path + ".xlsx")

        def fn():
            uc.initialize(num_days=1, force=True)
            return uc.peak_time_range
    elif p == "user-alone":
        def fn():
            u = build(BASE).users[0]
            u.usecase = None
            u.generate_single_load_profile()
            return u.usecase.peak_time_range
        # func_time is 0: nothing else is drawn
    elif p == "added-after":
        def fn():
            uc = C.UseCase()
            uc.add_user(build(BASE).users)
            uc.initialize(num_days=1)
            return uc.peak_time_range
    elif p == "power-length":
        # a constant power weighs the same whatever the number of days it is repeated
        def fn():
            uc = build(BASE)
            uc.initialize(num_days=400)
            return uc.peak_time_range
    compare(res, f"range obtained by {p}", fn, BASE, pe, max_exec=30000)


def used_case(case, res):
    """the coincidence of the events of generated profiles depends on the range of the usecase"""
    mode, minute = case[1], case[2]
    for sched in ("first", "mid", "last", "spread"):
        u = core().User("u", 1)
        u.add_appliance(**dict(app_kw([(minute, minute + 3)], 1, 2, name="small"), func_time=1))
        u.add_appliance(**app_kw([(12, 13)], 1000, 1, name="peak"))
        uc = core().UseCase(users=[u], peak_enlarge=0.05, parallel_processing=mode == "parallel")
        run_once(lambda: uc.initialize(num_days=1), default=sched, gauss_cells=100)
        lo, hi = canon_range(uc.peak_time_range)
        dists = {}

        def fn():
            if mode == "user":
                return u.generate_single_load_profile()
            with pool.controlled_pool():
                return uc.generate_daily_load_profiles()

        def visit(out, w, choices):
            if isinstance(out, Crash):
                res.violate(f"{mode}: {out!r}\n{out.tb}", choices)
                return True
            prof = spec.canon(out)
            if len(prof) != 1:
                res.violate(f"{mode}: {prof} instead of one minute", choices)
                return True
            on = lo <= prof[0][0] <= hi
            d = dists.setdefault(on, {})
            k = (prof[0][1],)
            d[k] = d.get(k, 0) + w
            return False

        st = explore(fn, visit, max_exec=20000, gauss_cells=40, cells=3, cells01=3)
        res.stats.add(st)
        if res.bad:
            return
        for on, d in dists.items():
            tot = sum(d.values())
            want = spec.coincidence_law(2, "no", on)
            for k in (1, 2):
                if abs(d.get((float(k),), 0) / tot - want[k]) > 1e-3:
                    res.violate(f"{mode}: events {'in' if on else 'out of'} the peak range {lo}-{hi} of the usecase: {k} "
                                f"appliances with probability {d.get((float(k),), 0) / tot:.4g} instead of {want[k]:.4g}")
                    return
            res.validated += len(d)
