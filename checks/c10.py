"""C10 aggregation: the profile of a usecase is the sum over users, individuals and appliances, day by day"""
import itertools
import random

import numpy as np

from checks.c08 import joint
from mc import spec
from mc.explore import Crash, explore
from mc.lib import add_app, check_law, core
from mc.spec import App

BOUNDS = dict(
    quick="2 individuals drawing 11 kinds of appliances on the first and another day; 0-3 users of 0-3 individuals and 0-3 appliances over 1-9 days starting on each day of the week; "
    "joint law over 1-2 days of 1-2 stochastic appliances",
    thorough="2-3 individuals drawing 11 kinds of appliances on the first and another day; 0-3 users of 0-3 individuals and 0-3 appliances over 1-31 days starting on each day of the week; "
    "joint law over 1-3 days of 1-2 stochastic appliances",
)
ASSUMPTIONS = ["draws are abstracted to the cells described in mc/rng.py", "the peak time range is drawn at the "
               "centre of its cells in the joint laws"]

DAYS = ["2024-02-26", "2024-02-27", "2024-02-28", "2024-02-29", "2024-03-01", "2024-03-02", "2024-03-03",
        "2023-12-30"]


def weekend(date, i):
    import datetime

    return (datetime.date.fromisoformat(date) + datetime.timedelta(days=i)).weekday() >= 5


def flat_apps(seed):
    """three deterministic appliances: week days, week ends and a daily series"""
    series = [float((3 * d + seed) % 17) for d in range(366)]
    return [
        dict(name="wd", number=2, power=10 + seed, func_time=3, flat="yes", wd_we_type=0, window_1=(5, 9)),
        dict(name="we", number=1, power=20 + seed, func_time=3, flat="yes", wd_we_type=1, window_1=(1430, 1440)),
        dict(name="series", number=3, power=series, func_time=3, flat="yes", window_1=(7, 1435)),
    ]


def cases(tier):
    out = []
    t = tier == "thorough"
    for start in DAYS:
        for nd in (1, 2, 7, 9) + ((31,) if t else ()):
            out.append((f"flat-{start}-{nd}", ("flat", start, nd)))
    for key, apps, nd in (
        ("one", [dict(power=10, fixed="yes", func_time=1, window_1=(5, 7))], 2),
        ("two", [dict(power=10, fixed="yes", func_time=1, window_1=(5, 7)),
                 dict(power=100, number=2, func_time=1, window_1=(1438, 1440))], 1),
        ("coupled", [dict(power=10, fixed="yes", func_time=2, window_1=(0, 5), random_var_w=0.2, func_cycle=2)],
         2 if t else 1),
    ):
        for start in ("2024-03-01", "2024-03-03"):
            for flat in (True, False):
                for users in (1, 2):
                    out.append((f"law-{key}-{start}-{flat}-{users}", ("law", apps, nd, start, flat, users)))
    for key in ALONE:
        for n in (2,) + ((3,) if t and key not in ("windows", "time", "flat-windows", "copies") else ()):
            for day in (0, 3):
                out.append((f"individuals-{key}-{n}-{day}", ("individuals", key, n, day)))
    out.append(("cases", ("cases",)))
    out.append(("day-types", ("day-types", 400 if not t else 2000)))
    return out


EVENT = dict(power=10, fixed="yes", func_time=1, window_1=(5, 7))
# what each individual draws for himself: (preference of the user, appliances, options)
ALONE = {
    "event": (0, [EVENT], {}),
    "windows": (0, [dict(EVENT, random_var_w=0.25, window_1=(5, 9))], {}),
    "two-windows": (0, [dict(EVENT, num_windows=2, window_1=(5, 6), window_2=(30, 32), func_time=2)], {}),
    "time": (0, [dict(EVENT, func_time=2, window_1=(5, 8), func_cycle=2, time_fraction_random_variability=0.5)], {}),
    "occasional": (0, [dict(EVENT, occasional_use=0.4)], dict(cells01=5)),
    "thermal": (0, [dict(EVENT, thermal_p_var=0.5)], dict(cells=4)),
    "copies": (0, [dict(EVENT, fixed="no", number=3)], dict(cells=10)),
    "preference": (2, [dict(EVENT, pref_index=1), dict(EVENT, pref_index=2, power=100)], {}),
    "duty": (0, [dict(EVENT, fixed_cycle=2, p_11=5, t_11=1, p_12=3, t_12=1, p_21=50, t_21=1, p_22=30, t_22=1, func_time=2,
                      func_cycle=2, window_1=(5, 8), cw11=(0, 6), cw21=(7, 20))], {}),
    "duty-random": (0, [dict(EVENT, fixed_cycle=1, p_11=5, t_11=2, p_12=3, t_12=2, r_c1=0.5, func_time=4,
                             func_cycle=4, window_1=(5, 10))], dict(cells=4)),
    "flat-windows": (0, [dict(EVENT, flat="yes", func_time=1, random_var_w=0.25, window_1=(5, 9))], {}),
}


def individuals_case(case, res):
    """the individuals of a user draw independently, on any day"""
    _, key, n, day = case
    pref, apps, opts = ALONE[key]
    peak = (2000, 2010)
    cells = opts.get("cells", 2)
    objs = [App(**dict(a, name=f"a{i}")) for i, a in enumerate(apps)]
    expected = spec.convolve([joint(objs, pref, 0, cells, peak, day)] * n)

    def make():
        u = core().User("u", n, pref)
        for i, a in enumerate(apps):
            add_app(u, dict(a, name=f"a{i}"))
        return u

    span = np.arange(peak[0], peak[1] + 1)
    check_law(res, make, lambda u: u.generate_aggregated_load_profile(day, span, 0), expected, res.case, cells=cells,
              cells01=opts.get("cells01", 1), canon=spec.canon_sum,
              ratios=tuple({a["thermal_p_var"] for a in apps if a.get("thermal_p_var")}))


def flat_case(case, res):
    _, start, nd = case
    import datetime

    c = core()
    end = (datetime.date.fromisoformat(start) + datetime.timedelta(days=nd - 1)).isoformat()
    # every usecase of up to 3 users with 0..3 individuals and a subset of the appliances
    subsets = [(), (0,), (1,), (2,), (0, 1, 2)]
    shapes = [()] + [((n, s),) for n in (0, 1, 3) for s in subsets]
    shapes += [((1, a), (2, b)) for a in subsets for b in subsets]
    shapes += [((2, (0, 1, 2)), (0, (2,)), (3, (1, 2)))]
    for shape in shapes:
        expected = np.zeros((nd, 1440))
        users = []
        for ui, (n, subset) in enumerate(shape):
            u = c.User(f"u{ui}", n)
            for i in subset:
                kw = flat_apps(ui)[i]
                add_app(u, kw)
                for d in range(nd):
                    if kw.get("wd_we_type", 2) in (int(weekend(start, d)), 2):
                        p = kw["power"][d] if isinstance(kw["power"], list) else kw["power"]
                        a, b = kw["window_1"]
                        expected[d, a:b] += n * kw["number"] * p
            users.append(u)
        for flat in (True, False):

            def fn():
                if not users:
                    uc = c.UseCase(users=[], date_start=start, date_end=end)
                else:
                    uc = c.UseCase(users=users, date_start=start, date_end=end)
                return uc.generate_daily_load_profiles(flat=flat)

            def visit(out, weight, choices):
                want = expected.reshape(-1) if flat else expected
                if isinstance(out, Crash):
                    res.violate(f"{shape} over {nd} days from {start}: {out!r}\n{out.tb}", choices)
                elif not isinstance(out, np.ndarray) or out.shape != want.shape:
                    res.violate(f"{shape}: {nd} days (flat={flat}) give an array of shape "
                                f"{getattr(out, 'shape', type(out))}", choices)
                elif not np.allclose(out, want, rtol=1e-12, atol=1e-9):
                    i = np.argwhere(~np.isclose(out, want, rtol=1e-12, atol=1e-9))[0]
                    res.violate(f"users (number, appliances) {shape}, {nd} days from {start} (flat={flat}): "
                                f"{out[tuple(i)]} W at {tuple(i)} instead of {want[tuple(i)]}", choices)
                return res.bad

            # the peak range does not matter: one schedule
            st = explore(fn, visit, cells=1, max_exec=1, default="mid")
            st.complete = True
            res.stats.add(st)
            res.validated += 1
            if res.bad:
                return
    res.sample = dict(start=start, days=nd, usecases=len(shapes))


def law_case(case, res):
    _, apps, nd, start, flat, nu = case
    c = core()

    def make():
        users = []
        for i in range(nu):
            u = c.User(f"u{i}", 1)
            for j, a in enumerate(apps):
                add_app(u, dict(a, name=f"a{j}"))
            users.append(u)
        uc = c.UseCase(users=users, date_start=start)
        uc.initialize(num_days=nd)
        uc.peak_time_range = np.arange(2000, 2010)
        return uc

    one = spec.convolve([spec.law(App(**a), cells=6) for a in apps] * nu)
    expected = {(): 1.0}
    for d in range(nd):
        expected = {
            k + tuple((m + 1440 * d, round(v, 2)) for m, v in day): p * q
            for k, p in expected.items()
            for day, q in one.items()
        }

    def run(uc):
        out = uc.generate_daily_load_profiles(flat=flat)
        want = (nd * 1440,) if flat else (nd, 1440)
        if out.shape != want:
            raise AssertionError(f"shape {out.shape} instead of {want}")
        return out.reshape(-1)

    check_law(res, make, run, expected, res.case, cells=6, canon=spec.canon_sum)


def cases_case(res):
    c = core()
    for nd in (1, 3):
        for labels in (["a"], [1, 2, 3], range(2), ("x", "y", "z")):
            u = c.User("u", 1)
            add_app(u, flat_apps(1)[2])
            add_app(u, flat_apps(1)[0])
            uc = c.UseCase(users=[u], date_start="2024-03-01")

            def fn():
                uc.initialize(num_days=nd, force=True)
                plain = uc.generate_daily_load_profiles()
                return plain, uc.generate_daily_load_profiles(cases=labels), uc.datetimeindex

            def visit(out, weight, choices):
                if isinstance(out, Crash):
                    res.violate(f"cases={labels}: {out!r}\n{out.tb}", choices)
                    return True
                plain, plot, index = out
                df = plot.df
                want = [f"case {x}" for x in labels]
                if list(df.columns) != want:
                    res.violate(f"cases={list(labels)} gives the columns {list(df.columns)}")
                elif len(df) != nd * 1440 or not (df.index == index).all():
                    res.violate(f"cases={list(labels)}: the index is not the one of the {nd} days")
                elif not all(np.allclose(df[w].values, plain) for w in want):
                    res.violate(f"cases={list(labels)}: the columns do not contain the profiles")
                return True

            st = explore(fn, visit, cells=1, max_exec=1)
            st.complete = True
            res.stats.add(st)
            res.validated += 1
    # independent cases: the columns differ as much as the draws do
    u = c.User("u", 1)
    add_app(u, dict(power=10, fixed="yes", func_time=1, window_1=(5, 7)))
    uc = c.UseCase(users=[u], date_start="2024-03-01")
    seen = {}

    def fn():
        uc.initialize(num_days=1, force=True)
        uc.peak_time_range = np.arange(2000, 2010)
        df = uc.generate_daily_load_profiles(cases=[0, 1]).df
        return tuple(int(np.flatnonzero(df[k].values > 1)[0]) for k in df.columns)

    from mc.rng import Controller  # noqa

    def visit(out, weight, choices):
        if isinstance(out, Crash):
            res.violate(f"independent cases: {out!r}\n{out.tb}", choices)
            return True
        seen[out] = seen.get(out, 0) + weight
        return False

    st = explore(fn, visit, cells=1, sparse=2)
    res.stats.add(st)
    want = set(itertools.product((5, 6), (5, 6)))
    if not res.bad and set(seen) != want:
        res.violate(f"independent cases: outcomes {sorted(seen)} instead of {sorted(want)}")
    res.validated += 4
    # with a seed: the cases are the runs which follow each other after the initialisation
    for seed, nd, k in itertools.product((None, 0, 1, 12345), (1, 2), (1, 2, 3)):
        def make():
            u = c.User("u", 2)
            add_app(u, dict(power=10, func_time=5, window_1=(100, 1000), number=2))
            uc = c.UseCase(users=[u], date_start="2024-03-01", random_seed=seed)
            if seed is None:
                random.seed(99)
            uc.initialize(num_days=nd, force=True)
            return uc

        uc = make()
        df = uc.generate_daily_load_profiles(cases=range(k)).df
        uc = make()
        runs = [np.array(uc.generate_daily_load_profiles()) for _ in range(k)]
        res.stats.executions += 2
        res.stats.states += k
        res.stats.transitions += 2 * k
        for i, j in itertools.combinations(range(k), 2):
            if np.array_equal(df.values[:, i], df.values[:, j]):
                res.violate(f"random_seed={seed}, cases=range({k}): the cases {i} and {j} are identical")
                return
        if not all(np.allclose(df.values[:, i], runs[i], rtol=1e-12) for i in range(k)):
            res.violate(f"random_seed={seed}, cases=range({k}): the cases are not the runs which follow each other")
            return
        res.validated += 1


def day_types(case, res):
    """a deterministic weekday and weekend appliance over a long calendar"""
    import datetime

    c = core()
    n = case[1]
    for start in ("2023-12-25", "2024-02-20", "1999-12-31"):
        u = c.User("u", 1)
        add_app(u, dict(name="wd", power=1, func_time=3, flat="yes", wd_we_type=0, window_1=(5, 9)))
        add_app(u, dict(name="we", power=2, func_time=3, flat="yes", wd_we_type=1, window_1=(5, 9)))
        uc = c.UseCase(users=[u], date_start=start)

        def fn():
            uc.initialize(num_days=n, force=True)
            return uc.generate_daily_load_profiles(flat=False)

        def visit(out, weight, choices):
            if isinstance(out, Crash):
                res.violate(f"{n} days from {start}: {out!r}\n{out.tb}")
                return True
            d0 = datetime.date.fromisoformat(start)
            for d in range(n):
                want = 2 if (d0 + datetime.timedelta(days=d)).weekday() >= 5 else 1
                if out[d, 6] != want:
                    res.violate(f"day {d} from {start} ({d0 + datetime.timedelta(days=d)}) uses the appliances "
                                f"of type {out[d, 6] - 1:g}")
                    return True
            res.validated += n
            return True

        st = explore(fn, visit, cells=1, max_exec=1)
        st.complete = True
        res.stats.add(st)


def run_case(case, res):
    dict(flat=flat_case, law=law_case, individuals=individuals_case, cases=lambda c, r: cases_case(r), **{"day-types": day_types})[case[0]](
        case, res)
