"""C25 day types, yearly patterns and the packaged examples: every day and year which can be represented; every
sequence of operations on the packaged data up to a depth"""
import datetime
import hashlib
import itertools
import os
import runpy
import shutil

import numpy as np
import pandas as pd

from mc import boot
from mc.explore import Stats

BOUNDS = dict(
    quick="every date of the years 1-9999 as date and ISO text, every date of the years 1678-2261 as datetime (3 times of "
    "the day) and Timestamp; yearly_pattern of the years 1678-2261; every sequence of 3 operations among 9 on the packaged data",
    thorough="every date of the years 1-9999 as date, ISO text and datetime (3 times), every date of the years 1678-2261 as "
    "Timestamp and datetime64-based Timestamp; yearly_pattern of the years 1678-2261; every sequence of 4 operations among 9",
)
ASSUMPTIONS = ["the proleptic Gregorian calendar, 2024-01-01 is a Monday"]

MONDAY = datetime.date(2024, 1, 1).toordinal()
DATA = ("shower_P.csv", "daily_T.csv", "T_gw.csv")
FILES = tuple(f"input_file_{k}.py" for k in (1, 2, 3)) + DATA
OPS = ("load", "spoil", "invalid", "download", "again", "alter", "relative", "deep", "run")


def leap(y):
    return y % 4 == 0 and (y % 100 != 0 or y % 400 == 0)


def kind_of(ordinal):
    return 1 if (ordinal - MONDAY) % 7 >= 5 else 0


def cases(tier):
    out = [(f"days-{y}", ("days", y, min(9999, y + 624), tier)) for y in range(1, 10000, 625)]
    out += [(f"stamps-{y}", ("stamps", y, min(2261, y + 72), tier)) for y in range(1678, 2262, 73)]
    out += [(f"years-{y}", ("years", y, min(2261, y + 145))) for y in range(1678, 2262, 146)]
    out += [("default-year", ("default",)), ("timed", ("timed",))]
    for first in OPS:
        out.append((f"examples-{first}", ("examples", first, 3 if tier == "quick" else 4)))
    return out


def run_case(case, res):
    {"days": days, "stamps": stamps, "years": years, "default": default, "timed": timed, "examples": examples}[case[0]](case, res)
    if not res.stats.executions:
        res.stats.executions = res.validated


# ------------------------------------------------------------------------------------- calendar
def check_day(res, get, day, ordinal):
    got = get(day)
    res.stats.states += 1
    if got != kind_of(ordinal):
        res.violate(f"get_day_type({day!r}) is {got!r} instead of {kind_of(ordinal)}")
        return False
    res.validated += 1
    return True


def days(case, res):
    from ramp import get_day_type as get

    _, first, last, tier = case
    for o in range(datetime.date(first, 1, 1).toordinal(), datetime.date(last, 12, 31).toordinal() + 1):
        day = datetime.date.fromordinal(o)
        forms = [day, day.isoformat()]
        if tier != "quick":
            forms += [datetime.datetime.combine(day, t) for t in TIMES]
        for d in forms:
            if not check_day(res, get, d, o):
                return


TIMES = (datetime.time(0, 0), datetime.time(12, 0, 1), datetime.time(23, 59, 59, 999999))


def stamps(case, res):
    from ramp import get_day_type as get

    _, first, last, tier = case
    for o in range(datetime.date(first, 1, 1).toordinal(), datetime.date(last, 12, 31).toordinal() + 1):
        day = datetime.date.fromordinal(o)
        forms = [datetime.datetime.combine(day, t) for t in TIMES] + [pd.Timestamp(day)]
        if tier != "quick":
            forms += [pd.Timestamp(np.datetime64(day.isoformat())), pd.Timestamp(day) + pd.Timedelta(86399, "s")]
        for d in forms:
            if not check_day(res, get, d, o):
                return


def years(case, res):
    from ramp import yearly_pattern

    _, first, last = case
    for y in range(first, last + 1):
        start = datetime.date(y, 1, 1).toordinal()
        want = [kind_of(start + i) for i in range(366 if leap(y) else 365)]
        for arg in (y, str(y), np.int64(y)):
            got = yearly_pattern(arg)
            res.stats.states += 1
            if [int(v) for v in got] != want:
                n = next((i for i, (a, b) in enumerate(zip(got, want)) if a != b), min(len(got), len(want)))
                res.violate(f"yearly_pattern({arg!r}): {len(got)} days instead of {len(want)}, or day {n} is wrong")
                return
            res.validated += 1
            if isinstance(got, list):
                got[0] = got[-1] = 7  # what is returned belongs to the caller
        if [int(v) for v in yearly_pattern(year=y)] != want:
            res.violate(f"yearly_pattern({y}) depends on what was done with an earlier result")
            return


def default(case, res):
    from ramp import yearly_pattern

    want = [1 if i % 7 >= 5 else 0 for i in range(365)]
    for _ in range(3):
        got = yearly_pattern()
        res.stats.states += 1
        if [int(v) for v in got] != want:
            res.violate("yearly_pattern() is not a year of 365 days which starts with a monday")
            return
        res.validated += 1
        if isinstance(got, list):
            got[3] = 1


def timed(case, res):
    """calc_time_taken does not alter the function"""
    from ramp.core.utils import calc_time_taken

    class Own(Exception):
        pass

    seen = []

    def f(*a, **k):
        seen.append((a, k))
        if k.get("fail"):
            raise Own(a)
        return a, k

    g = calc_time_taken(f)
    for n in range(4):
        for kw in ({}, {"x": 1}, {"x": 1, "y": [2]}, {"fail": True}):
            args = tuple(range(n))
            seen.clear()
            res.stats.states += 1
            try:
                got = g(*args, **kw)
            except Own:
                got = Own
            if got != (Own if "fail" in kw else (args, kw)) or seen != [(args, kw)]:
                res.violate(f"calc_time_taken: f{args}, {kw} gives {got} and {len(seen)} calls")
                return
            res.validated += 1


# ------------------------------------------------------------------------------------- packaged data
def digest(path):
    with open(path, "rb") as fp:
        return hashlib.sha1(fp.read()).hexdigest()


def model(path):
    """the users a python input file defines"""
    out = runpy.run_path(path)["User_list"]
    res = []
    for u in out:
        res.append((u.user_name, u.num_users, u.user_preference,
                    tuple(tuple((k, np.ravel(v).tolist() if isinstance(v, (np.ndarray, list, tuple)) else v)
                                for k, v in sorted(vars(a).items()) if isinstance(v, (np.ndarray, list, tuple, str, int, float)))
                          for a in u.App_list)))
    return res


def alter(path, how):
    """the user edits a copy: longer, of the same size, emptied, or much more recent than the package"""
    with open(path, "rb") as fp:
        content = fp.read()
    if how == 0:
        content += b"\n# altered by the user" if path.endswith(".py") else b"0,0\n"
    elif how == 2:
        content = b""
    else:
        content = content[:-2] + bytes([content[-2] ^ 1]) + content[-1:]
    with open(path, "wb") as fp:
        fp.write(content)
    if how == 3:
        os.utime(path, (2e9, 2e9))


def examples(case, res):
    """sequences of operations: the packaged files are never modified, every load and every download is complete"""
    import ramp
    from ramp import download_example, load_data

    _, first, depth = case
    home = os.path.join(os.path.dirname(os.path.abspath(ramp.__file__)), "example")
    before = {f: digest(os.path.join(home, f)) for f in FILES}
    want = pd.read_csv(os.path.join(home, "shower_P.csv"))
    models = {}
    elsewhere = []  # the sequences in which the second input file does not run from the working directory
    back = os.getcwd()

    def settled(label, folders):
        for f in FILES:
            if digest(os.path.join(home, f)) != before[f]:
                res.violate(f"{label}: the file {f} of the package is modified")
                return False
        names = set(os.listdir(home)) - {"__pycache__"}
        if names != listing:
            res.violate(f"{label}: files are added to or removed from the package: {sorted(names ^ listing)}")
            return False
        return True

    listing = set(os.listdir(home)) - {"__pycache__"}
    for ops in itertools.product(OPS, repeat=depth - 1):
        ops = (first,) + ops
        label = " + ".join(ops)
        work = boot.scratch_dir("ex")
        os.chdir(work)
        res.stats.executions += 1
        frames = []
        complete = None  # the folder which holds an unaltered copy

        def copied(folder):
            for f in FILES:
                p = os.path.join(folder, f)
                if not os.path.isfile(p) or digest(p) != before[f]:
                    res.violate(f"{label}: {f} is not copied as it is into {folder}")
                    return False
            return True

        try:
            for n, op in enumerate(ops):
                res.stats.transitions += 1
                if op in ("load", "spoil"):
                    df = load_data("shower") if n % 2 else load_data(example="shower")
                    if not isinstance(df, pd.DataFrame) or list(df.columns) != list(want.columns) or not df.equals(want):
                        res.violate(f"{label}: load_data does not give the packaged series")
                        return
                    frames.append((df, op == "spoil"))
                    if op == "spoil":
                        df.iloc[:, 0] = -1.0
                elif op == "invalid":
                    try:
                        load_data("bath")
                    except ValueError:
                        pass
                    else:
                        res.violate(f"{label}: load_data accepts an unknown example")
                        return
                elif op in ("download", "again", "alter", "relative", "deep"):
                    folder = {"download": os.path.join(work, f"d{n}"), "relative": f"r{n}",
                              "deep": os.path.join(work, "a folder", f"b.py{n}", "c"), "again": os.path.join(work, "same"),
                              "alter": os.path.join(work, "same")}[op]
                    os.makedirs(folder, exist_ok=True)
                    if op == "relative":
                        folder = "./" + folder if n % 2 else folder
                    download_example(folder + ("/" if n % 2 and op == "download" else ""))
                    if not copied(folder):
                        return
                    complete = os.path.abspath(folder)
                    if op == "alter":
                        for k, f in enumerate(FILES):
                            alter(os.path.join(folder, f), (k + n) % 4)
                        with open(os.path.join(folder, "mine.txt"), "w") as fp:
                            fp.write("x")
                        complete = None
                elif op == "run":
                    # a downloaded file defines the users the packaged one defines, from any working directory
                    if complete is None:
                        continue
                    for k in (1, 2, 3):
                        if k not in models:
                            os.chdir(os.path.dirname(os.path.dirname(home)))
                            models[k] = model(os.path.join(home, f"input_file_{k}.py"))
                            os.chdir(work)
                        path = os.path.join(complete, f"input_file_{k}.py")
                        try:
                            got = model(path)
                        except FileNotFoundError as exc:
                            if k != 2 or "shower_P.csv" not in str(exc):
                                raise
                            if not elsewhere:
                                res.violate(f"{label}: the downloaded input_file_2.py does not run from another folder: {exc}",
                                            signature="input_file_2.py elsewhere")
                            elsewhere.append(label)
                            # it is known to run from a folder with ramp/example/shower_P.csv only
                            os.chdir(os.path.dirname(os.path.dirname(home)))
                            got = model(path)
                            os.chdir(work)
                        if got != models[k]:
                            res.violate(f"{label}: the downloaded input file {k} does not define the same users")
                            return
                res.validated += 1
                if not settled(label, None):
                    return
            for df, spoilt in frames:
                if not spoilt and not df.equals(want):
                    res.violate(f"{label}: a series which was loaded changes afterwards")
                    return
            res.stats.states += len(ops)
        finally:
            os.chdir(back)
            shutil.rmtree(work, ignore_errors=True)
    res.sample = dict(first=first, depth=depth, sequences=res.stats.executions)
