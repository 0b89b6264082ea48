"""C15 power series are taken day by day and too short ones are refused"""
import itertools
import json
import os
import warnings

import numpy as np
import pandas as pd

from mc import boot, pool
from mc.lib import core

BOUNDS = dict(
    quick="every kind of power (9) x series of 1 to 5 values x calendars of 1 to 5 days x 14 construction histories x 2 modes; "
    "366 values and calendars of 365 to 367 days (events: 400 days), and input files",
    thorough="every kind of power (9) x series of 1 to 8 values x calendars of 1 to 8 days x 14 construction histories x 2 modes; "
    "366 values and calendars of 365 to 367, 400 and 731 days, and input files",
)
ASSUMPTIONS = ["the appliances are deterministic (flat, or a single event filling its window), so that the profile shows the power"]
CASE_TIMEOUT = 600

LAST = 365


def values(n):
    return [1000.0 + 7 * i + 1 / 3 for i in range(n)]


# kind -> (argument, is a series)
def power(kind, n):
    v = values(n)
    if kind == "int":
        return 50
    if kind == "float":
        return 50.5
    if kind == "frame":
        return pd.DataFrame({"p": v})
    if kind == "frame-index":
        return pd.DataFrame({"p": v}, index=pd.date_range("2023-05-01", periods=n))
    if kind == "frame-int":
        return pd.DataFrame({"p": [int(x) for x in v]})
    if kind == "json":
        return json.dumps(v)
    if kind == "json-int":
        return json.dumps([int(x) for x in v])
    if kind == "json-two":
        return json.dumps([[f"2023-01-{i + 1:02d}" if n < 28 else 20230000 + i, x] for i, x in enumerate(v)])
    if kind == "same":
        return pd.DataFrame({"p": [77.0] * n})


KINDS = ("int", "float", "frame", "frame-index", "frame-int", "json", "json-int", "json-two", "same")


def expected(kind, n, day):
    """power on that day, None if there is none"""
    if kind in ("int", "float"):
        return 50 if kind == "int" else 50.5
    if day >= n:
        return None
    v = values(n)[day]
    return 77.0 if kind == "same" else int(v) if kind.endswith("-int") else v


def add(user, kind, n, how):
    p = power(kind, n)
    if how == "object":
        a = core().Appliance(user, 2, p, num_windows=1, func_time=1440, flat="yes", name="a")
        a.windows([0, 1440])
        user.add_appliance(a)
    elif how == "legacy":
        a = user.Appliance(2, p, 1, 1440, flat="yes", name="a")
        a.windows([0, 1440])
    elif how == "positional":
        user.add_appliance(2, p, func_time=1440, flat="yes", name="a", window_1=[0, 1440])
    elif how == "event":
        # one event of one minute in the first three
        user.add_appliance(number=2, power=p, fixed="yes", func_time=1, func_cycle=1, window_1=[0, 3], num_windows=1,
                           name="a")
    else:
        user.add_appliance(number=2, power=p, func_time=1440, flat="yes", name="a", window_1=[0, 1440])


HOWS = ("keyword", "object", "legacy", "positional")


def calendar(days):
    return dict(date_start="2024-03-01", date_end=str((pd.Timestamp("2024-03-01") + pd.Timedelta(days - 1, "d")).date()))


def build(hist, kind, n, days, how, parallel):
    """returns an initialised usecase, or raises"""
    C = core()
    par = dict(parallel_processing=parallel)
    u = C.User("u", 1)
    if hist == "users-init":
        add(u, kind, n, how)
        uc = C.UseCase(users=[u], **par)
        uc.initialize(num_days=days)
    elif hist == "users-dates":
        add(u, kind, n, how)
        uc = C.UseCase(users=[u], **calendar(days), **par)
    elif hist == "added-user":
        add(u, kind, n, how)
        uc = C.UseCase(**par)
        uc.add_user(u)
        uc.initialize(num_days=days)
    elif hist == "added-list":
        add(u, kind, n, how)
        uc = C.UseCase(users=[C.User("other", 1)], **par)
        uc.add_user([u])
        uc.initialize(num_days=days)
    elif hist == "appliance-later":
        uc = C.UseCase(users=[u], **par)
        add(u, kind, n, how)
        uc.initialize(num_days=days)
    elif hist == "appliance-after-add":
        uc = C.UseCase(**par)
        uc.add_user(u)
        add(u, kind, n, how)
        uc.date_start = "2024-03-01"
        uc.initialize(num_days=days)
    elif hist == "reinit-longer":
        add(u, kind, n, how)
        uc = C.UseCase(users=[u], **par)
        uc.initialize(num_days=1)
        uc.initialize(num_days=days, force=True)
    elif hist == "reinit-dates":
        add(u, kind, n, how)
        uc = C.UseCase(users=[u], **calendar(1), **par)
        uc.date_end = calendar(days)["date_end"]
        uc.initialize(force=True)
    elif hist == "after-short-usecase":
        # the power of the appliance is defined while its user belongs to an initialised usecase of one day
        first = C.UseCase(users=[u], **calendar(1))
        add(u, kind, n, how)
        uc = C.UseCase(users=[u], **par)
        uc.initialize(num_days=days)
    elif hist == "init-then-user":
        uc = C.UseCase(**par, **calendar(1))
        add(u, kind, n, how)
        uc.add_user(u)
        uc.date_end = calendar(days)["date_end"]
        uc.initialize(force=True)
    elif hist == "added-to-initialised":
        # the appliance is added to the user of a usecase which already has its calendar
        uc = C.UseCase(users=[u], **calendar(days), **par)
        add(u, kind, n, how)
        uc.initialize(force=True)
    elif hist == "added-and-used":
        # the same, without another initialisation
        uc = C.UseCase(users=[u], **calendar(days), **par)
        add(u, kind, n, how)
    elif hist == "end-only":
        add(u, kind, n, how)
        uc = C.UseCase(users=[u], date_end="2024-03-01", **par)
        uc.initialize(num_days=days)
    elif hist == "second-appliance":
        u.add_appliance(number=1, power=0, func_time=1440, flat="yes", name="z", window_1=[0, 1440])
        add(u, kind, n, how)
        uc = C.UseCase(users=[C.User("other", 1), u], **par)
        uc.initialize(num_days=days)
    elif hist == "retry":
        add(u, kind, n, how)
        uc = C.UseCase(users=[u], **par)
        try:
            uc.initialize(num_days=10 * days + 400)
        except ValueError:
            pass
        else:
            assert kind in ("int", "float"), "a series too short for the first initialisation was accepted"
        uc.initialize(num_days=days, force=True)
    else:
        raise KeyError(hist)
    return uc


HISTS = ("users-init", "users-dates", "added-user", "added-list", "appliance-later", "appliance-after-add", "reinit-longer",
         "reinit-dates", "after-short-usecase", "init-then-user", "added-to-initialised", "end-only", "second-appliance", "retry")


def cases(tier):
    m = 5 if tier == "quick" else 8
    out = [(f"{k}-{h}", ("short", k, h, m)) for k in KINDS for h in HISTS]
    long = (365, 366, 367) if tier == "quick" else (365, 366, 367, 400, 731)
    out += [(f"long-{k}-{d}", ("long", k, d)) for k in KINDS for d in long]
    out += [(f"file-{c}-{d}", ("file", c, d)) for c in ("json", "json-two", "ref", "ref-two", "number") for d in long]
    out += [(f"types-{i}", ("types", i)) for i in range(len(BAD))]
    out += [(f"event-{k}", ("event", k, m)) for k in KINDS]
    out += [(f"longevent-{k}-{p}", ("longevent", k, p)) for k in KINDS for p in (False, True)]
    return out


BAD = [None, [1, 2, 3], np.array([1.0, 2.0]), (5,), {"a": 1}, pd.Series([1.0, 2.0])]


def run_case(case, res):
    warnings.simplefilter("ignore")
    globals()[case[0] + "_case"](case, res)


def check(res, label, make, kind, n, days, event=False):
    """make() raises a ValueError if the series is too short, else every day shows its own value"""
    res.stats.executions += 1
    res.stats.states += 1
    short = kind not in ("int", "float") and n < days
    try:
        uc = make()
        refused = None
    except ValueError as e:
        refused = e
    if short:
        if refused is None:
            res.violate(f"{label}: {n} values are accepted for a calendar of {days} days")
        else:
            res.validated += 1
        return not res.bad
    if refused is not None:
        res.violate(f"{label}: {n} values are refused for a calendar of {days} days: {refused}")
        return False
    with pool.controlled_pool():
        prof = uc.generate_daily_load_profiles(flat=False)
    res.stats.transitions += days
    if prof.shape != (days, 1440):
        res.violate(f"{label}: profiles of shape {prof.shape}")
        return False
    for i in range(days):
        want = 2 * expected(kind, n, i)
        row = np.sort(prof[i])[-1:] if event else prof[i]
        if not np.allclose(row, want, rtol=1e-9) or (event and np.count_nonzero(prof[i] > 1) != 1):
            res.violate(f"{label}: on day {i} the power is {row[0] / 2} instead of {want / 2}")
            return False
    # single profiles asked for a day, in any order
    user = [u for u in uc.users if u.user_name != "other"][0]
    for i in (days - 1, 0, days // 2):
        one = user.generate_single_load_profile(i, np.arange(3), 0)
        if not np.allclose(one.max(), 2 * expected(kind, n, i), rtol=1e-9):
            res.violate(f"{label}: the profile of day {i} has power {one.max() / 2} instead of {expected(kind, n, i)}")
            return False
    if short is False and kind not in ("int", "float"):
        try:
            user.generate_single_load_profile(n, np.arange(3), 0)
            res.violate(f"{label}: a profile is generated for day {n} of a series of {n} values")
            return False
        except Exception:  # noqa
            pass
    res.validated += days
    return True


def short_case(case, res):
    _, kind, hist, m = case
    for n, days, how, parallel in itertools.product(range(1, m + 1), range(1, m + 1), HOWS, (False, True)):
        if parallel and how != HOWS[(n + days) % 4]:
            continue
        if kind in ("int", "float") and n > 1:
            continue
        if hist == "after-short-usecase" and kind not in ("int", "float") and n < 1:
            continue
        label = f"{kind} series, {hist}, {how}{', parallel' if parallel else ''}"
        if not check(res, label, lambda: build(hist, kind, n, days, how, parallel), kind, n, days):
            return
    res.sample = dict(kind=kind, history=hist, lengths=m, days=m)


def long_case(case, res):
    _, kind, days = case
    for n in ((366,) if kind in ("int", "float") else (365, 366, 367)):
        for hist in ("users-init", "added-user", "reinit-longer", "added-to-initialised", "appliance-later", "added-and-used"):
            if hist == "added-and-used" and kind not in ("int", "float") and n < days:
                continue
            if not check(res, f"{kind} series of {n}, {hist}", lambda: build(hist, kind, n, days, "keyword", False), kind, n, days):
                return


def event_case(case, res):
    _, kind, m = case
    for n, days in itertools.product(range(1, m + 1), repeat=2):
        if kind in ("int", "float") and n > 1:
            continue
        label = f"{kind} series, events"
        if not check(res, label, lambda: build("added-user", kind, n, days, "event", False), kind, n, days, event=True):
            return


def longevent_case(case, res):
    """more than a year of daily values, drawn by an appliance which is switched on by events"""
    _, kind, parallel = case
    for days in (367, 400):
        n = days + 3
        if not check(res, f"{kind} series of {n}, events", lambda: build("added-user", kind, n, days, "event", parallel), kind, n, days, event=True):
            return


def types_case(case, res):
    """anything else is refused"""
    bad = BAD[case[1]]
    res.stats.executions += 1
    u = core().User("u", 1)
    try:
        u.add_appliance(number=1, power=bad, func_time=1, window_1=[0, 1440])
    except ValueError:
        if u.App_list:
            res.violate(f"an appliance of power {bad!r} was added")
        res.validated += 1
        return
    except Exception as e:  # noqa
        res.violate(f"power {bad!r} raises {e!r}")
        return
    res.violate(f"power {bad!r} is accepted")


def input_file(kind):
    """a file whose power is a text or a reference"""
    from openpyxl import Workbook

    path = os.path.join(boot.scratch_dir("c15"), "in.xlsx")
    v = values(366)
    wb = Workbook()
    ws = wb.active
    ws.title = "Sheet1"
    cell = {"json": json.dumps(v), "json-two": json.dumps([[f"d{i}", x] for i, x in enumerate(v)]), "number": 50,
            "ref": "=S!B1:B366", "ref-two": "=S!A1:B366"}[kind]
    ws.append(["user_name", "num_users", "user_preference", "name", "number", "power", "num_windows", "func_time", "flat",
               "window_1_start", "window_1_end"])
    ws.append(["u", 1, 0, "a", 2, cell, 1, 1440, "yes", 0, 1440])
    s = wb.create_sheet("S")
    for i, x in enumerate(v):
        s.append([i, x])
    wb.save(path)
    return path


def file_case(case, res):
    _, kind, days = case
    path = input_file(kind)
    k = "int" if kind == "number" else "json"

    def load_then_init():
        uc = core().UseCase()
        uc.load(path)
        uc.initialize(num_days=days)
        return uc

    def init_then_load():
        uc = core().UseCase(**calendar(days))
        uc.load(path)
        return uc

    def load_twice():
        uc = core().UseCase(users=[core().User("other", 1)])
        uc.initialize(num_days=1)
        uc.load(path)
        uc.initialize(num_days=days, force=True)
        return uc

    for f in (load_then_init, init_then_load, load_twice):
        if not check(res, f"file with {kind} power, {f.__name__}", f, k, 366, days):
            return
