"""C13 generating profiles has no memory, does not alter definitions, and results are not shared"""
import copy
import itertools

import numpy as np

from mc import pool, spec
from mc.explore import Crash, explore, run_once
from mc.lib import add_app, core, peak_array, single_profile

BOUNDS = dict(
    quick="every history of up to 2 operations out of 13 (every draw of the first one, 3 schedules of draws for the next ones) "
    "followed by every draw of the probe, for 12 kinds of appliances",
    thorough="every history of up to 3 operations out of 13 (every draw of the first one, 3 schedules of draws for the next "
    "ones) followed by every draw of the probe, for 12 kinds of appliances",
)
ASSUMPTIONS = ["draws are abstracted to the cells described in mc/rng.py"]
CASE_TIMEOUT = 700

APPS = {
    "plain": dict(power=10, number=2, func_time=2, func_cycle=2, window_1=(10, 14)),
    "events": dict(power=10, fixed="yes", func_time=2, func_cycle=1, window_1=(10, 13)),
    "windows": dict(power=10, fixed="yes", func_time=1, func_cycle=1, num_windows=2, window_1=(0, 2),
                    window_2=(1437, 1440), random_var_w=0.34),
    "flat": dict(power=10, flat="yes", func_time=1, window_1=(10, 15), random_var_w=0.2),
    "series": dict(power=[5.0, 50.0, 7.0] + [1.0] * 363, fixed="yes", func_time=1, window_1=(10, 12)),
    "duty1": dict(power=1, fixed="yes", fixed_cycle=1, p_11=10, t_11=2, p_12=4, t_12=2, r_c1=0.5, func_time=4,
                  func_cycle=4, window_1=(10, 15)),
    "duty3": dict(power=1, fixed="yes", fixed_cycle=3, p_11=10, t_11=1, p_12=4, t_12=1, p_21=20, t_21=1, p_22=8,
                  t_22=1, p_31=30, t_31=1, p_32=3, t_32=2, func_time=2, func_cycle=2, window_1=(10, 14),
                  cw11=(10, 10), cw21=(11, 12), cw31=(13, 20), cw12=(9, 10)),
    "oneshot": dict(power=1, fixed="yes", fixed_cycle=1, continuous_duty_cycle=0, p_11=10, t_11=1, p_12=4, t_12=1,
                    func_time=4, func_cycle=3, window_1=(10, 16)),
    "thermal": dict(power=100, fixed="yes", thermal_p_var=0.25, func_time=1, window_1=(10, 12)),
    "occasional": dict(power=100, fixed="yes", occasional_use=0.5, func_time=1, window_1=(10, 12)),
    "pref": dict(power=100, fixed="yes", pref_index=1, func_time=1, window_1=(10, 12)),
    "weekday": dict(power=100, fixed="yes", wd_we_type=0, func_time=1, window_1=(10, 12)),
}
PEAKS = ((2000, 2010), (11, 12))
OPS = ("gen", "gen-peak", "gen-weekend", "gen-day2", "aggregate", "max-profile", "save", "compare", "usecase",
       "other-user", "mutate-result", "copy", "parallel")


class World:
    def __init__(self, kind):
        self.kind = kind
        self.user = core().User("u", 2, 2 if kind == "pref" else 0)
        add_app(self.user, dict(APPS[kind], name="a"))
        self.app = self.user.App_list[0]
        self.other = core().User("v", 1)
        add_app(self.other, dict(APPS[kind], name="b"))
        self.kept = []
        self.usecase = None

    def definition(self):
        return self.user.save().to_json(double_precision=15)

    def keep(self, arr):
        self.kept.append((arr, np.array(arr, copy=True)))
        return arr

    def run(self, op):
        u = self.user
        if op == "gen":
            self.keep(single_profile(u, PEAKS[0]))
            self.keep(self.app.daily_use)
        elif op == "gen-peak":
            self.keep(single_profile(u, PEAKS[1]))
        elif op == "gen-weekend":
            self.keep(single_profile(u, PEAKS[0], day_type=1))
        elif op == "gen-day2":
            self.keep(single_profile(u, PEAKS[0], prof_i=2))
        elif op == "aggregate":
            self.keep(u.generate_aggregated_load_profile(1, peak_array(PEAKS[0]), 0))
        elif op == "max-profile":
            self.keep(u.maximum_profile)
            self.keep(self.app.maximum_profile)
        elif op == "save":
            u.save(), str(u), repr(self.app), self.app.export_to_dataframe()
        elif op == "compare":
            self.app == self.other.App_list[0], u == self.other
        elif op == "usecase":
            self.usecase = core().UseCase(users=[u, self.other])
            self.usecase.date_start = "2024-03-01"
            self.usecase.initialize(num_days=2, force=True)
            self.keep(self.usecase.generate_daily_load_profiles(flat=False))
            self.keep(self.usecase.generate_daily_load_profiles())
            self.usecase.calc_peak_time_range()
        elif op == "other-user":
            self.keep(single_profile(self.other, PEAKS[1]))
        elif op == "mutate-result":
            out = single_profile(u, PEAKS[0])
            out[:] = 77
            out = u.generate_aggregated_load_profile(0, peak_array(PEAKS[0]), 0)
            out[:] = 78
            u.maximum_profile[:] = 79
            self.app.maximum_profile[:] = 80
        elif op == "copy":
            d = copy.deepcopy(u)
            single_profile(d, PEAKS[0])
        elif op == "parallel":
            with pool.controlled_pool():
                uc = core().UseCase(users=[u], date_start="2024-03-01", parallel_processing=True)
                uc.initialize(num_days=1, force=True)
                self.keep(uc.generate_daily_load_profiles())

    def unchanged(self):
        for arr, before in self.kept:
            if not np.array_equal(arr, before):
                return False
        return True


def ctl_args(kind):
    return dict(cells=6 if kind == "plain" else 2, cells01=2 if kind == "occasional" else 1,
                ratios=(0.25,) if kind == "thermal" else ())


PROBES = {
    "off": lambda u: single_profile(u, PEAKS[0]),
    "peak": lambda u: single_profile(u, PEAKS[1]),
    "weekend": lambda u: single_profile(u, PEAKS[0], 1),
    "day1": lambda u: single_profile(u, PEAKS[0], 0, 1),
}


def law_of(world, probe, kind, st=None, limit=4000):
    dist = {}

    def visit(out, w, choices):
        k = "crash " + out.type if isinstance(out, Crash) else spec.canon(out)
        dist[k] = dist.get(k, 0) + w
        return False

    s = explore(lambda: PROBES[probe](world.user), visit, max_exec=limit, **ctl_args(kind))
    if st is not None:
        st.add(s)
    return dist, s.complete


def cases(tier):
    out = []
    for kind in APPS:
        for first in OPS:
            out.append((f"{kind}-{first}", ("history", kind, first, tier)))
        out.append((f"{kind}-independent", ("independent", kind)))
    return out


def history_case(case, res):
    _, kind, first, tier = case
    fresh = {}
    for p in PROBES:
        fresh[p], complete = law_of(World(kind), p, kind)
        assert complete, (kind, p)
    before = World(kind).definition()
    depth = 2 if tier == "quick" else 3
    # every schedule of the first operation: states reached
    prefixes = []
    explore(lambda: World(kind).run(first), lambda o, w, c: prefixes.append(c) and False, max_exec=12 if tier == "quick"
            else 60, sparse=3, **ctl_args(kind))
    first_worlds = prefixes or [[]]
    tails = [t for d in range(depth) for t in itertools.product(OPS, repeat=d)]
    for n, prefix in enumerate(first_worlds):
        for tail in tails:
            if n >= 3 and len(tail) > 0 and tier == "quick":
                continue
            if n >= 2 and len(tail) > 1:
                continue
            for default in ("first", "spread") if tail else ("first",):
                world = World(kind)

                def fn():
                    for op in (first,) + tail:
                        world.run(op)

                ctl, out = run_once(fn, prefix=prefix, default=default, sparse=3, **ctl_args(kind))
                res.stats.executions += 1
                res.stats.states += len(tail) + 1
                res.stats.transitions += len(tail) + 1
                hist = (first,) + tail
                if isinstance(out, Crash):
                    res.violate(f"{kind}: {hist} raises {out!r}\n{out.tb}", prefix)
                    return
                if not world.unchanged():
                    res.violate(f"{kind}: a result returned during {hist} was changed by a later operation", prefix)
                    return
                if world.definition() != before:
                    res.violate(f"{kind}: {hist} changes the saved definition of the appliance", prefix)
                    return
                probes = list(PROBES) if len(tail) == 0 else [list(PROBES)[(len(hist[-1]) + n) % 4], "off"]
                for p in probes:
                    dist, _ = law_of(world, p, kind, res.stats)
                    diffs = spec.compare(dist, fresh[p], 1e-9)
                    if diffs:
                        res.violate(f"{kind}: after {hist} the law of the profile ({p}) is different: {diffs[0]}",
                                    prefix)
                        return
                    res.validated += 1
                if not world.unchanged():
                    res.violate(f"{kind}: a result returned during {hist} was changed by the next generation", prefix)
                    return
    res.sample = dict(kind=kind, first=first, schedules_of_first=len(first_worlds), tails=len(tails))


def independent_case(case, res):
    """two successive profiles: the joint law is the product of the laws"""
    kind = case[1]
    one, _ = law_of(World(kind), "off", kind)
    if len(one) ** 2 > 900:
        return
    world = World(kind)
    dist = {}

    def fn():
        a = spec.canon(single_profile(world.user, PEAKS[0]))
        b = spec.canon(single_profile(world.user, PEAKS[0]))
        return a, b

    def visit(out, w, choices):
        if isinstance(out, Crash):
            res.violate(f"{kind}: {out!r}", choices)
            return True
        dist[out] = dist.get(out, 0) + w
        return False

    st = explore(fn, visit, max_exec=40000, **ctl_args(kind))
    res.stats.add(st)
    if res.bad or not st.complete:
        return
    for a, pa in one.items():
        for b, pb in one.items():
            if abs(dist.get((a, b), 0) - pa * pb) > 1e-9:
                res.violate(f"{kind}: profile {spec.show(b)} after {spec.show(a)} has probability "
                            f"{dist.get((a, b), 0) / pa:.6g} instead of {pb:.6g}")
                return
    res.validated += len(dist)


def run_case(case, res):
    globals()[case[0] + "_case"](case, res)
