"""C12 a seed makes results exactly reproducible, whatever happened before"""
import itertools
import os
import random
import subprocess
import sys

import numpy as np

from mc import boot, pool
from mc.lib import add_app, core

BOUNDS = dict(
    quick="every history of up to 2 operations out of 9 before the seeded generation, 3 seeds, 4 ways to give the dates, "
    "sequential and parallel (3 schedules); 2 hash seeds in other processes",
    thorough="every history of up to 3 operations out of 9 before the seeded generation, 6 seeds, 4 ways to give the dates, "
    "sequential and parallel (6 schedules); 4 hash seeds in other processes",
)
ASSUMPTIONS = ["the real random generator is used (its state is part of the explored histories)"]
CASE_TIMEOUT = 600

OPS = ("draw", "reseed", "numpy", "usecase", "generate", "seeded-usecase", "peak", "parallel", "user-alone")
DATES = ("ctor", "start", "none", "force")


def users(tag=0):
    c = core()
    u = c.User("u0", 2, 2)
    add_app(u, dict(name="a", number=3, power=7.5, func_time=30, func_cycle=4, window_1=(300, 360),
                    window_2=(600, 640), num_windows=2, random_var_w=0.3, time_fraction_random_variability=0.2,
                    thermal_p_var=0.2))
    add_app(u, dict(name="b", number=1, power=100, func_time=10, func_cycle=2, window_1=(1200, 1260), pref_index=1,
                    occasional_use=0.7))
    v = c.User("u1", 1)
    add_app(v, dict(name="c", number=2, power=50, fixed_cycle=3, p_11=10, t_11=5, p_12=3, t_12=4, cw11=(0, 500),
                    p_21=20, t_21=5, p_22=5, t_22=6, cw21=(501, 900), p_31=30, t_31=3, p_32=7, t_32=9,
                    cw31=(901, 1440), r_c1=0.2, r_c2=0.2, r_c3=0.2, func_time=60, func_cycle=10,
                    window_1=(300, 400), thermal_p_var=0.1))
    return [u, v]


def make(seed, dates, parallel, us):
    c = core()
    if dates == "ctor":
        uc = c.UseCase(users=us, date_start="2024-03-01", date_end="2024-03-03", random_seed=seed,
                       parallel_processing=parallel)
    elif dates == "start":
        uc = c.UseCase(users=us, date_start="2024-03-01", random_seed=seed, parallel_processing=parallel)
        uc.initialize(num_days=3)
    elif dates == "none":
        uc = c.UseCase(users=us, random_seed=seed, parallel_processing=parallel)
        uc.date_start = "2024-03-01"
        uc.date_end = "2024-03-03"
        uc.initialize()
    else:
        uc = c.UseCase(users=us, date_end="2024-03-03", random_seed=seed, parallel_processing=parallel)
        uc.initialize(num_days=3)
    return uc


def generate(seed, dates, parallel, us=None):
    uc = make(seed, dates, parallel, us or users())
    return uc.generate_daily_load_profiles(flat=False), uc.peak_time_range


class History:
    """operations of the process before the seeded usecase is created"""

    def __init__(self):
        self.us = users()
        self.uc = None

    def run(self, op):
        c = core()
        if op == "draw":
            random.random()
            random.gauss(0, 1)  # leaves a second gaussian number in the generator
        elif op == "reseed":
            random.seed(123)
        elif op == "numpy":
            np.random.seed(5)
            np.random.rand(3)
        elif op == "usecase":
            self.uc = c.UseCase(users=self.us, date_start="2020-01-01", date_end="2020-01-02")
        elif op == "generate":
            self.uc = self.uc or c.UseCase(users=self.us, date_start="2020-01-01", date_end="2020-01-01")
            self.uc.generate_daily_load_profiles()
        elif op == "seeded-usecase":
            self.uc = c.UseCase(users=self.us, date_start="2020-01-01", date_end="2020-01-01", random_seed=77)
        elif op == "peak":
            if self.uc is not None:
                self.uc.calc_peak_time_range()
        elif op == "parallel":
            with pool.controlled_pool():
                uc = c.UseCase(users=self.us, date_start="2020-01-01", date_end="2020-01-01",
                               parallel_processing=True)
                uc.generate_daily_load_profiles()
        elif op == "user-alone":
            self.us[0].generate_aggregated_load_profile(0, np.arange(600, 700), 0)


def cases(tier):
    seeds = (0, 1, 123456789) if tier == "quick" else (0, 1, 2, 123456789, -5, 2**40)
    out = []
    for s in seeds:
        for d in DATES:
            for par in (False, True):
                if par and tier == "quick" and (d in ("start", "force")) and s:
                    continue
                out.append((f"seed{s}-{d}-{'parallel' if par else 'sequential'}", ("history", s, d, par, tier)))
    for par in (False, True):
        out.append((f"process-{par}", ("process", par, tier)))
    out.append(("regenerate", ("regenerate",)))
    out.append(("distinct", ("distinct",)))
    out.append(("shipped", ("shipped",)))
    return out


def history_case(case, res):
    _, seed, dates, par, tier = case
    depth = 2 if tier == "quick" else (3 if not par else 2)
    ref = None
    with pool.controlled_pool(cpus=4):
        ref = generate(seed, dates, par)
    if not (ref[0] > 0.01).any():
        res.violate(f"{res.case}: nothing generated")
    alphabet = OPS
    hist = [h for d in range(depth + 1) for h in itertools.product(alphabet, repeat=d)]
    if par and tier == "quick":
        hist = [h for h in hist if len(h) < 2 or h[0] in ("usecase", "reseed")]
    scheds = [(None, None)]
    if par:
        scheds += [((2, 1, 0, 3), (0, 1, 0, 1)), ((3, 0, 1, 2), (0, 1, 2, 2))]
    for h in hist:
        todo = scheds if len(h) < 2 else scheds[:1]
        for order, owners in todo:
            with pool.controlled_pool(pool.Schedule(order, owners), cpus=4):
                state = History()
                for op in h:
                    state.run(op)
                # the same users may have been used already
                for us in (None, state.us):
                    out = generate(seed, dates, par, us)
                    res.stats.executions += 1
                    res.stats.states += len(h) + 1
                    res.stats.transitions += len(h) + 1
                    if not np.array_equal(out[1], ref[1]):
                        res.violate(f"seed {seed}, dates {dates}: after {h} the peak range is {out[1][0]}-{out[1][-1]} "
                                    f"instead of {ref[1][0]}-{ref[1][-1]}", list(h))
                        return
                    if not np.array_equal(out[0], ref[0]):
                        i = tuple(int(x) for x in np.argwhere(out[0] != ref[0])[0])
                        res.violate(f"seed {seed}, dates {dates}, {'parallel' if par else 'sequential'}: after {h} "
                                    f"{'(same users)' if us else ''} {out[0][i]!r} W at {i} instead of {ref[0][i]!r} W",
                                    list(h))
                        return
    res.validated += res.stats.executions
    res.sample = dict(seed=seed, dates=dates, parallel=par, histories=len(hist), last=list(hist[-1]))


SCRIPT = """
import sys, warnings
warnings.simplefilter("ignore")
sys.path.insert(0, {scratch!r}); sys.path.insert(0, {verif!r})
import hashlib, io
real, sys.stdout = sys.stdout, io.StringIO()
sys.stderr = io.StringIO()
from mc import rng
rng.install()
from checks import c12
out, peak = c12.generate({seed}, {dates!r}, {par})
real.write(hashlib.sha1(out.tobytes()).hexdigest() + " " + str(peak[0]) + "-" + str(peak[-1]))
"""


def process_case(case, res):
    _, par, tier = case
    import hashlib

    for seed in (0, 42):
        out, peak = generate(seed, "ctor", par)  # the real pool when parallel
        want = hashlib.sha1(out.tobytes()).hexdigest() + f" {peak[0]}-{peak[-1]}"
        for hs in ("0", "1") if tier == "quick" else ("0", "1", "2", "77"):
            code = SCRIPT.format(scratch=boot.SCRATCH, verif=boot.VERIF, seed=seed, dates="ctor", par=par)
            env = dict(os.environ, PYTHONHASHSEED=hs)
            p = subprocess.run([sys.executable, "-c", code], env=env, capture_output=True, text=True, timeout=200)
            res.stats.executions += 1
            res.stats.states += 1
            if p.stdout.strip() != want:
                res.violate(f"seed {seed} (parallel={par}): another process with hash seed {hs} gives "
                            f"{p.stdout.strip() or p.stderr[-300:]} instead of {want}")
                return
            res.validated += 1


def regenerate_case(case, res):
    """the whole sequence of results of a seeded usecase is reproducible, not only the first one"""
    for par in (False, True):
        runs = []
        for _ in range(2):
            with pool.controlled_pool(cpus=4):
                uc = make(5, "ctor", par, users())
                a = uc.generate_daily_load_profiles()
                b = uc.generate_daily_load_profiles()
                uc.initialize(force=True)
                c = uc.generate_daily_load_profiles()
                d = uc.generate_daily_load_profiles(cases=[1, 2]).df.values
                runs.append((a, b, c, d))
            random.random()
        for i, (x, y) in enumerate(zip(*runs)):
            res.stats.executions += 1
            res.stats.states += 1
            if not np.array_equal(x, y):
                res.violate(f"seeded usecase (parallel={par}): generation number {i + 1} is not reproducible")
            res.validated += 1
        if np.array_equal(runs[0][0], runs[0][1]):
            res.violate(f"two successive generations of a usecase (parallel={par}) are the same")


def distinct_case(case, res):
    """different seeds give different profiles, no seed gives different profiles each time"""
    seen = {}
    for seed in (0, 1, 2, 3, 10, 100):
        out = generate(seed, "ctor", False)[0].tobytes()
        res.stats.executions += 1
        res.stats.states += 1
        if out in seen:
            res.violate(f"the seeds {seen[out]} and {seed} give the same profiles")
        seen[out] = seed
        res.validated += 1
    random.seed(1)
    a = generate(None, "ctor", False)[0]
    b = generate(None, "ctor", False)[0]
    if np.array_equal(a, b):
        res.violate("without seed two usecases generate the same profiles")


def shipped_case(case, res):
    """the shipped input files, with a seed"""
    import importlib

    c = core()
    for j in (1, 2, 3):
        us = importlib.import_module(f"ramp.example.input_file_{j}").User_list
        outs = []
        for k in range(2):
            random.seed(k)
            uc = c.UseCase(users=us, date_start="2024-03-01", date_end="2024-03-01", random_seed=9)
            outs.append(uc.generate_daily_load_profiles())
            res.stats.executions += 1
            res.stats.states += 1
        if not np.array_equal(*outs):
            res.violate(f"input_file_{j}: two seeded runs differ")
        res.validated += 1


def run_case(case, res):
    globals()[case[0] + "_case"](case, res)
