"""C14 the calendar of a usecase, for every short history of settings and initialisations"""
import builtins
import datetime
import os

import numpy as np

from mc import boot
from mc.lib import core

BOUNDS = dict(
    quick="breadth first search of all histories of up to 3 operations (2 for 7 of the constructions) out of 30 from 9 constructions, merged by the full state "
    "of the usecase; in every state reached the calendar, the minute index and generated profiles are compared with the model",
    thorough="breadth first search of all histories of up to 4 operations out of 30 from 9 constructions, merged by the full state "
    "of the usecase; in every state reached the calendar, the minute index and generated profiles are compared with the model",
)
ASSUMPTIONS = ["calendars of 1 to 4 days around a weekend, a month end and a leap day; input() answers from a fixed list"]
CASE_TIMEOUT = 800

D = datetime.datetime
A = D(2024, 2, 28)  # wednesday before a leap day
B = D(2024, 3, 1)  # friday
C = D(2024, 3, 3)  # sunday
NSERIES = 6
PROMPT = "2"

OPS = [
    ("start", "2024-02-28"), ("start", D(2024, 3, 1)), ("start", datetime.date(2024, 3, 3)), ("start", None),
    ("end", "2024-03-01"), ("end", datetime.date(2024, 3, 3)), ("end", None),
    ("init",), ("init", 1), ("init", 3), ("init", 0), ("init", -1),
    ("force",), ("force", 2), ("force", 3), ("force", 0), ("force", 9),
    ("peak", 0.3), ("peak", -0.1), ("peak", "no"), ("force-peak", -0.1), ("force-peak", 0.0),
    ("user",), ("short-user",), ("load",), ("load-short",), ("num_days",), ("index",), ("generate",), ("bad-date",),
]
STARTS = {
    "plain": {},
    "from": dict(date_start="2024-02-28"),
    "until": dict(date_end="2024-03-01"),
    "dates": dict(date_start="2024-02-28", date_end="2024-03-01"),
    "objects": dict(date_start=D(2024, 3, 1), date_end=D(2024, 3, 3)),
    "days": dict(date_start=datetime.date(2024, 3, 1), date_end=datetime.date(2024, 3, 2)),
    "oneday": dict(date_start="2024-03-02", date_end="2024-03-02"),
    "seed": dict(date_start="2024-03-01", date_end="2024-03-03", random_seed=3, peak_enlarge=0.5),
    "noon": dict(date_start="2024-03-01T12:00:00"),
}


def as_dt(d):
    if isinstance(d, str):
        return D.fromisoformat(d)
    if isinstance(d, datetime.datetime) or d is None:
        return d
    return D(d.year, d.month, d.day)


class Model:
    """what the documentation says about the calendar"""

    def __init__(self, date_start=None, date_end=None, **kw):
        self.start = as_dt(date_start)
        self.end = as_dt(date_end)
        self.cal = None
        self.length = NSERIES  # of the shortest series of the users
        self.error = None
        if self.start is not None and self.end is not None:
            self.init()

    def init(self, n=None, force=False, bad_peak=False):
        self.error = None
        if self.cal is not None and not force:
            return
        both = self.start is not None and self.end is not None
        if n is None and self.cal is not None and not both:
            n = len(self.cal)
        self.cal = None
        if n is None:
            n = (self.end.date() - self.start.date()).days + 1 if both else int(PROMPT)
            # a period which is not a whole number of days
            if both and self.start + datetime.timedelta(days=n - 1) > self.end:
                n -= 1
        if n < 1 or n > self.length or bad_peak:
            self.error = "TypeError" if bad_peak == "type" and 1 <= n <= self.length else "ValueError"
            return
        if self.start is not None:
            first = self.start
        elif self.end is not None:
            first = self.end - datetime.timedelta(days=n - 1)
        else:
            t = D.today()
            first = D(t.year, t.month, t.day)
        self.cal = tuple(first + datetime.timedelta(days=i) for i in range(n))

    def op(self, op):
        k = op[0]
        self.error = None
        if k == "start":
            self.start = as_dt(op[1])
        elif k == "end":
            self.end = as_dt(op[1])
        elif k in ("init", "force"):
            self.init(op[1] if len(op) > 1 else None, k == "force")
        elif k in ("peak", "force-peak"):
            bad = "type" if not isinstance(op[1], float) else op[1] < 0
            self.init(None if self.cal is None and not (self.start and self.end) else None, k == "force-peak", bad)
        elif k in ("short-user", "load-short", "load"):
            if k != "load":
                self.length = 2
            # a usecase which is already initialised accepts users, load checks them
            if k != "short-user" and self.cal is not None and len(self.cal) > self.length:
                self.error = "ValueError"
        elif k in ("num_days", "index"):
            if self.cal is None:
                self.init()
        elif k == "generate":
            if self.cal is None:
                self.error = "ValueError"
            elif len(self.cal) > self.length:
                self.error = ("ValueError", "IndexError")
        elif k == "bad-date":
            self.error = "ValueError"

    def key(self):
        return (self.start, self.end, self.cal, self.length)


def series(n, base):
    return [base + 10 * i for i in range(n)]


def new_user(n):
    import pandas as pd

    u = core().User("u", 1)
    u.add_appliance(number=1, power=pd.DataFrame({"p": series(n, 5)}), flat="yes", func_time=1440, window_1=[0, 1440])
    u.add_appliance(number=1, power=1000, flat="yes", func_time=1440, window_1=[0, 1440], wd_we_type=1, name="we")
    return u


_files = {}


def input_file(short):
    if short not in _files:
        d = boot.scratch_dir("c14")
        uc = core().UseCase(users=[core().User("l", 1)])
        u = uc.users[0]
        u.add_appliance(number=1, power=100000, flat="yes", func_time=1440, window_1=[0, 1440], name="const")
        if short:
            # the file format only accepts 366 values: the short series is put in memory before load() checks it
            pass
        uc.save(os.path.join(d, "in"))
        _files[short] = os.path.join(d, "in.xlsx")
    return _files[short]


class World:
    def __init__(self, start):
        self.extra = 0
        self.shorts = 0
        self.uc = None
        self.model = Model(**STARTS[start])
        self.uc = core().UseCase(users=[new_user(NSERIES)], **STARTS[start])

    def op(self, op):
        uc = self.uc
        k = op[0]
        if k == "start":
            uc.date_start = op[1]
        elif k == "end":
            uc.date_end = op[1]
        elif k == "init":
            uc.initialize(*op[1:])
        elif k == "force":
            uc.initialize(*op[1:], force=True)
        elif k == "peak":
            uc.initialize(peak_enlarge=op[1])
        elif k == "force-peak":
            uc.initialize(peak_enlarge=op[1], force=True)
        elif k == "user":
            self.extra += 1
            uc.add_user(new_user(NSERIES))
        elif k == "short-user":
            self.shorts += 1
            uc.add_user(new_user(2))
        elif k == "load":
            uc.load(input_file(False))
        elif k == "load-short":
            self.shorts += 1
            uc.add_user(new_user(2))
            uc.load(input_file(True))
        elif k == "num_days":
            uc.num_days
        elif k == "index":
            uc.datetimeindex
        elif k == "generate":
            uc.generate_daily_load_profiles()
        elif k == "bad-date":
            uc.date_start = "2024-13-01"

    def fingerprint(self):
        out = []
        for k, v in sorted(vars(self.uc).items()):
            if k in ("users", "appliances"):
                out.append((k, len(v)))
            elif isinstance(v, np.ndarray):
                out.append((k, "array"))
            elif hasattr(v, "freq") and hasattr(v, "__len__"):
                out.append((k, str(v[0]) if len(v) else None, len(v)))
            else:
                out.append((k, repr(v)))
        for a in [a for u in self.uc.users for a in u.App_list]:
            out.append(len(a.power))
        return tuple(out)


def fake_input(prompt=""):
    return PROMPT


def check_state(world, op, err, res, path):
    """compare the usecase with the model; returns a message"""
    m, uc = world.model, world.uc
    if m.error is None and err is not None:
        return f"{op} raises {err}"
    if m.error is not None and (err is None or not err.startswith(m.error)):
        return f"{op} should raise {m.error} ({err or 'nothing'} instead)"
    if bool(uc.is_initialized) != (m.cal is not None):
        return f"after {op}, is_initialized is {uc.is_initialized}"
    if uc.date_start != m.start and as_dt(uc.date_start) != m.start:
        return f"date_start is {uc.date_start}"
    if uc.date_end != m.end and as_dt(uc.date_end) != m.end:
        return f"date_end is {uc.date_end}"
    if m.cal is None:
        return None
    days = [d.to_pydatetime() for d in uc.days]
    if tuple(days) != m.cal:
        return f"after {op}, the days are {[str(d) for d in days]} instead of {[str(d) for d in m.cal]}"
    if uc.num_days != len(m.cal):
        return f"after {op}, num_days is {uc.num_days} instead of {len(m.cal)}"
    idx = uc.datetimeindex
    want = np.arange(np.datetime64(m.cal[0]), np.datetime64(m.cal[0]) + np.timedelta64(len(m.cal) * 1440, "m"),
                     np.timedelta64(1, "m"))
    if len(idx) != len(want) or not np.array_equal(idx.values.astype("datetime64[m]"), want.astype("datetime64[m]")):
        return f"after {op}, datetimeindex covers {idx[0]} to {idx[-1]} ({len(idx)} minutes) instead of {want[0]} to {want[-1]}"
    if m.length < len(m.cal):
        # users added later than the initialisation: refused by the next initialisation or load
        return None
    prof = uc.generate_daily_load_profiles(flat=False)
    if prof.shape != (len(m.cal), 1440):
        return f"after {op}, the profiles have shape {prof.shape}"
    for i, day in enumerate(m.cal):
        val = series(NSERIES, 5)[i] * (1 + world.extra + world.shorts)
        if day.weekday() > 4:
            val += 1000 * (1 + world.extra + world.shorts)
        val += 100000 * sum(1 for o in path if o[0].startswith("load"))
        if not (prof[i] == val).all():
            return f"after {op}, the profile of day {i} ({day.date()}) is {prof[i][0]} instead of {val}"
    if m.cal and not np.array_equal(uc.generate_daily_load_profiles(), prof.reshape(-1)):
        return f"after {op}, the flat profile differs from the daily ones"
    return None


def play(start, path):
    world = World(start)
    err = None
    for op in path:
        err = None
        world.model.op(op)
        try:
            world.op(op)
        except Exception as e:  # noqa
            err = f"{type(e).__name__}: {e}"
    return world, err


def cases(tier):
    deep = ("plain", "dates") if tier == "quick" else STARTS
    out = [(f"{s}-{i}", ("bfs", s, i, (2 if tier == "quick" else 3) + (s in deep))) for s in STARTS for i in range(len(OPS))]
    out += [(f"ctor-{i}", ("ctor", i)) for i in range(len(BAD_CTOR))]
    out.append(("days-argument", ("days", None)))
    return out


BAD_CTOR = [
    dict(date_start="2024-03-02", date_end="2024-03-01"),
    dict(date_start="2024-03-02", date_end=D(2023, 3, 1)),
    dict(date_start="x", date_end="2024-03-01"),
    dict(date_start="2024-03-01", date_end="2024-03-20"),  # longer than the series
]


def run_case(case, res):
    real_input, builtins.input = builtins.input, fake_input
    try:
        globals()[case[0] + "_case"](case, res)
    finally:
        builtins.input = real_input


def ctor_case(case, res):
    kw = BAD_CTOR[case[1]]
    res.stats.executions += 1
    try:
        core().UseCase(users=[new_user(NSERIES)], **kw)
    except ValueError:
        res.validated += 1
        return
    res.violate(f"UseCase({kw}) does not raise a ValueError")


def bfs_case(case, res):
    _, start, first, depth = case
    world, _ = play(start, ())
    seen = {(world.model.key(), world.fingerprint())}
    if first == 0:
        msg = check_state(world, "the construction", None, res, ())
        if msg:
            res.violate(f"{start}: {msg}")
            return
    frontier = [()]
    for d in range(depth):
        nxt = []
        for path in frontier:
            for op in [OPS[first]] if d == 0 else OPS:
                if op[0].startswith("load") and any(o[0].startswith("load") for o in path):
                    continue
                new = path + (op,)
                world, err = play(start, new)
                res.stats.transitions += 1
                res.stats.executions += 1
                key = (world.model.key(), world.fingerprint(), world.extra, world.shorts)
                is_new = key not in seen
                if is_new:
                    seen.add(key)
                    res.stats.states += 1
                    if world.extra + world.shorts + sum(o[0].startswith("load") for o in new) <= 2:
                        nxt.append(new)
                # errors are compared on every transition, the observations on every new state
                if is_new or err or world.model.error:
                    msg = check_state(world, op, err, res, new)
                    if msg:
                        res.violate(f"UseCase({STARTS[start]}) then {list(new)}: {msg}", [list(map(str, o)) for o in new])
                        return
                    res.validated += 1
        frontier = nxt
    res.stats.maxdepth = depth
    res.sample = dict(start=start, first=str(OPS[first]), states=len(seen), last_path=[str(o) for o in (frontier or [()])[-1]])


def days_case(case, res):
    """the days argument of generate_daily_load_profiles"""
    import pandas as pd

    days = pd.date_range("2024-03-02", periods=2)
    for init in (False, True):
        uc = core().UseCase(users=[new_user(NSERIES)])
        if init:
            uc.date_start = "2024-02-28"
            uc.initialize(num_days=3)
        res.stats.executions += 1
        asked = []

        def no_input(prompt=""):
            asked.append(prompt)
            return "2"

        builtins.input = no_input
        sig = "days argument, " + ("initialised usecase" if init else "usecase not initialised")
        try:
            prof = uc.generate_daily_load_profiles(days=days, flat=False)
        except Exception as e:  # noqa
            res.violate(f"{sig}: {type(e).__name__}: {e}", signature=sig)
            continue
        if asked:
            res.violate(f"{sig}: the number of days is asked on the standard input", signature=sig)
        elif prof.shape != (2, 1440):
            res.violate(f"{sig}: the profiles have shape {prof.shape} instead of (2, 1440)", signature=sig)
        elif not ((prof[0] == 1005).all() and (prof[1] == 1015).all()):
            res.violate(f"{sig}: the profiles are not those of the given days", signature=sig)
        else:
            res.validated += 1
