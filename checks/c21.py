"""C21 the command line simulates the requested inputs, calendars and outputs"""
import builtins
import calendar
import datetime
import itertools
import os
import shutil
import sys
import warnings

import numpy as np
import pandas as pd

from mc import boot, pool
from mc.lib import core

BOUNDS = dict(
    quick="every combination of 6 inputs (1 to 3 files, .py files), 4 values of -n, 6 pairs of dates, 3 kinds of outputs and 2 of -p; whole years "
    "(-y) for one and two files; folders of 12 files with 4 kinds of names (years of each kind, centuries included), 0 to 13 files; every pair of contradictory options",
    thorough="the same with whole years for each option which selects them, with and without -p, and folders for 2 more years",
)
ASSUMPTIONS = ["input files of one command have different names when no output is given", "outputs of one command are different files"]
CASE_TIMEOUT = 850

D = datetime.date
MAIN = "ramp.cli"


def deterministic(uc_name, base, constant=False, weekend=True):
    """an input whose profile tells the day, its type, and the minute"""
    C = core()
    u = C.User(f"{uc_name}", 1)
    steps = base if constant else pd.DataFrame({"p": [float(base + i) for i in range(366)]})
    u.add_appliance(name="day", number=1, power=steps, flat="yes", func_time=1440, window_1=[0, 1440])
    u.add_appliance(name="half", number=2, power=5000, flat="yes", func_time=720, window_1=[720, 1440])
    u.add_appliance(name="minutes", number=1, power=30000, flat="yes", func_time=7, num_windows=2, window_1=[0, 1], window_2=[1433, 1439])
    if weekend:
        u.add_appliance(name="weekend", number=1, power=100000, flat="yes", func_time=1440, window_1=[0, 1440], wd_we_type=1)
    return C.UseCase(users=[u])


def expected(base, days, constant=False, weekend=True):
    """series of a calendar"""
    out = np.zeros((len(days), 1440))
    for i, d in enumerate(days):
        out[i] += base if constant else base + i
        out[i, 720:] += 10000
        out[i, 0:1] += 30000
        out[i, 1433:1439] += 30000
        if weekend and d.weekday() > 4:
            out[i] += 100000
    return out.reshape(-1)


def days_of(n, start, end, prompt, today):
    """the calendar which is requested, or an error"""
    if n is None:
        if start is None and end is not None:
            start = D(end.year, 1, 1)
        elif start is not None and end is None:
            end = D(start.year, 12, 31)
    if n is None:
        n = (end - start).days + 1 if start is not None else prompt
    if n < 1:
        return ValueError
    first = start if start is not None else end - datetime.timedelta(days=n - 1) if end is not None else today
    return [first + datetime.timedelta(days=i) for i in range(n)]


class Quiet:
    """matplotlib and the standard input"""

    def __init__(self, answers="2"):
        self.answers = answers
        self.asked = 0

    def __enter__(self):
        import matplotlib.pyplot as plt

        self.saved = [(plt, k, getattr(plt, k)) for k in ("plot", "show", "figure", "xlabel", "ylabel", "ylim", "margins", "xticks", "savefig")]
        for m, k, _ in self.saved:
            setattr(m, k, lambda *a, **kw: None)
        self.saved.append((builtins, "input", builtins.input))

        def ask(prompt=""):
            self.asked += 1
            return self.answers

        builtins.input = ask
        self.saved.append((sys, "argv", sys.argv))
        return self

    def __exit__(self, *a):
        for m, k, v in reversed(self.saved):
            setattr(m, k, v)


def results_dir():
    import ramp

    return os.path.join(os.path.dirname(os.path.abspath(ramp.__file__)), "results")


def listing(folder):
    out = {}
    for base, _, names in os.walk(folder):
        for n in names:
            p = os.path.join(base, n)
            st = os.stat(p)
            out[os.path.relpath(p, folder)] = (st.st_mtime_ns, st.st_size)
    return out


def command(args, answers="2", parallel=False):
    """run the command, returns the error"""
    import ramp.cli

    warnings.simplefilter("ignore")
    with Quiet(answers) as q:
        sys.argv = ["ramp"] + [str(a) for a in args]
        try:
            with pool.controlled_pool(cpus=3) as sched:
                ramp.cli.main()
            return None, q, sched
        except SystemExit as e:
            return f"SystemExit {e.code}", q, None
        except Exception as e:
            return e, q, None


class World:
    """a scratch folder with inputs; everything which is written is seen"""

    def __init__(self, tag):
        self.dir = boot.scratch_dir("c21" + tag)
        self.here = os.getcwd()

    def __enter__(self):
        os.chdir(self.dir)
        return self

    def __exit__(self, *a):
        os.chdir(self.here)
        shutil.rmtree(self.dir, ignore_errors=True)

    def input(self, name, base, constant=False, weekend=True):
        deterministic(name, base, constant, weekend).save(name[: -len(".xlsx")])
        return name

    def python(self, name):
        with open(name, "w") as fp:
            fp.write(f"with open({name + '.ran'!r}, 'a') as fp:\n    fp.write('x')\n")
        return name

    def state(self):
        return {("cwd", k): v for k, v in listing(self.dir).items()} | {("results", k): v for k, v in listing(results_dir()).items()}


def touch(path, text):
    with open(path, "w") as fp:
        fp.write(text)


def read(path):
    df = pd.read_csv(path, index_col=0)
    return df


def check_series(res, label, path, want):
    if not os.path.exists(path):
        res.violate(f"{label}: the output {os.path.basename(path)} is not written")
        return False
    df = read(path)
    got = df.values
    if got.shape != (len(want), 1):
        res.violate(f"{label}: the output {os.path.basename(path)} has {got.shape[0]} rows and {got.shape[1]} columns instead of {len(want)}, 1")
        return False
    if df.index.tolist() != list(range(len(want))):
        res.violate(f"{label}: the rows of {os.path.basename(path)} are not numbered in order")
        return False
    if not np.allclose(got[:, 0], want, rtol=1e-12, atol=1e-9):
        i = int(np.argmax(np.abs(got[:, 0] - want)))
        res.violate(f"{label}: {os.path.basename(path)} has {got[i, 0]} W at the minute {i} (day {i // 1440}) instead of {want[i]}")
        return False
    res.validated += 1
    return True


# ------------------------------------------------------------------------------------- options
INPUTS = (
    ("one.xlsx",),
    ("two b.xlsx", "one.xlsx"),
    ("c.xlsx", "a.xlsx", "b.v2.xlsx"),
    (os.path.join("sub dir", "deep.xlsx"), "one.xlsx"),
    ("script one.py", "one.xlsx"),
    ("script.py",),
)
DAYS = (None, (1,), (3,), "each")
DATES = ((None, None), (D(2024, 2, 28), D(2024, 3, 2)), (D(2023, 12, 30), None), (None, D(2024, 1, 3)), (D(2024, 3, 2), D(2024, 3, 2)),
         (D(2023, 12, 30), D(2024, 1, 2)))
OUTPUTS = ("default", "given", "folders")


def cases(tier):
    out = [(f"options-{i}-{k}", ("options", i, k)) for i in range(len(INPUTS)) for k in range(4)]
    out += [(f"year-{y}-{f}", ("year", y, f, tier)) for y in YEARS for f in (1, 2)]
    out += [(f"open-{i}", ("open", i)) for i in range(4)]
    out += [(f"folder-{k}-{y}", ("folder", k, y, tier)) for k in FOLDERS for y in ((2023, 2024) if tier == "quick" else (2023, 2024, 2000, 1999, 2100, 1900))]
    if tier == "quick":
        out += [(f"folder-numbers-{y}", ("folder", "numbers", y, tier)) for y in (1900, 2000, 2100)]
    out += [(f"count-{n}", ("count", n)) for n in (0, 1, 6, 11, 13)]
    out += [("contradictory", ("contradictory",)), ("same-names", ("same_names",)), ("real", ("real",)), ("none", ("none",))]
    return out


def run_case(case, res):
    warnings.simplefilter("ignore")
    with boot.private_package():
        globals()[case[0] + "_case"](case, res)


def opts(start, end, n, par, years=None):
    out = []
    if n is not None:
        out += ["-n"] + list(n)
    if start is not None:
        out += ["--start-date", start]
    if end is not None:
        out += ["--end-date", end]
    if years:
        out += ["-y"] + list(years)
    if par:
        out += ["-p"]
    return out


def default_output(name):
    return os.path.join(results_dir(), f"output_file_{os.path.basename(name).replace('.', '_')}.csv")


def run_and_check(res, label, w, names, bases, options, calendars, outputs, answers="2", constant=False, weekend=True):
    """run the command on the inputs and check every output, and that nothing else is written"""
    for f in os.listdir(results_dir()):
        if f.endswith(".csv"):
            os.remove(os.path.join(results_dir(), f))
    xl = [n for n in names if n.endswith(".xlsx")]
    before = w.state()
    args = ["-i"] + list(names)
    paths = {}
    if outputs == "default":
        paths = {n: default_output(n) for n in xl}
    else:
        given = []
        for k, n in enumerate(names):
            p = f"out {k}.csv" if outputs == "given" else os.path.join(f"res{k}", "out.txt")
            os.makedirs(os.path.dirname(p) or ".", exist_ok=True)
            given.append(p)
            paths[n] = os.path.join(w.dir, p)
        args += ["-o"] + given
    args += options
    err, q, sched = command(args, answers)
    res.stats.executions += 1
    res.stats.states += len(names)
    label = f"{label} {' '.join(str(a) for a in args)}"
    if any(c is ValueError for c in calendars):
        if not isinstance(err, ValueError):
            res.violate(f"{label}: {err!r} instead of ValueError")
        return
    if err is not None:
        res.violate(f"{label}: {err!r}")
        return
    after = w.state()
    new = {k for k in after if after[k] != before.get(k)}
    allowed = set()
    for n, base, cal in zip(names, bases, calendars):
        if n.endswith(".py"):
            marker = n + ".ran"
            times = os.path.getsize(marker) if os.path.exists(marker) else 0
            if times != 1:
                res.violate(f"{label}: {n} is executed {times} times")
            else:
                os.remove(marker)
            allowed.add(("cwd", marker))
            continue
        p = paths[n]
        if not check_series(res, label, p, expected(base, cal, constant, weekend)):
            return
        allowed.add(("cwd", os.path.relpath(p, w.dir)))
        allowed.add(("results", os.path.relpath(p, results_dir())))
    extra = [k for k in new if k not in allowed]
    if extra:
        res.violate(f"{label}: other files are written: {extra[:3]}")
    for k in list(paths.values()):
        if os.path.exists(k):
            os.remove(k)
    return sched


def options_case(case, res):
    _, i, k = case
    names = INPUTS[i]
    with World("o") as w:
        bases = []
        for j, n in enumerate(names):
            if os.path.dirname(n):
                os.makedirs(os.path.dirname(n), exist_ok=True)
            bases.append(1000 * (j + 1))
            w.python(n) if n.endswith(".py") else w.input(n, 1000 * (j + 1))
        for j, (n, (start, end), out, par) in enumerate(itertools.product(DAYS, DATES, OUTPUTS, (False, True))):
            if j % 4 != k or (i == 5 and j % 16):
                continue
            if n is None and (start is None) != (end is None) and (end is None or end > D(2024, 1, 5)):
                continue  # most of a year: see the other cases
            ns = tuple(range(1, len(names) + 1)) if n == "each" else n
            if n is None and start == D(2023, 12, 30) and end is None:
                pass
            per = [None] * len(names) if ns is None else list(ns) * (len(names) if len(ns) == 1 else 1)
            today = D.today()
            cals = [days_of(x, start, end, 2, today) for x in per]
            sched = run_and_check(res, "", w, names, bases, opts(start, end, ns, par), cals, out)
            res.stats.transitions += 1
            if len(res.violations) > 2:
                return
            if par and sched is not None and any(x.endswith(".xlsx") for x in names) and not sched.pools:
                res.violate("the option -p does not use parallel processing")
                return
            if not par and sched is not None and sched.pools:
                res.violate("parallel processing is used without the option -p")
                return
        res.sample = dict(inputs=names, options=j + 1)


YEARS = ((2023,), (2024,), (2100,), (2000,), (2023, 2024), (2024, 2023), (2023, 2023), (2022, 2024), (2021, 2030, 2022))


def year_case(case, res):
    """the option -y with files"""
    _, years, nf, tier = case
    if nf == 2 and len(years) > 2 and tier == "quick":
        return
    start, end = D(years[0], 1, 1), D(years[-1], 12, 31)
    long = (end - start).days + 1 > 366
    with World("y") as w:
        names = ["first.xlsx", "second.xlsx"][:nf]
        for j, n in enumerate(names):
            w.input(n, 100 * (j + 1), constant=long)
        cals = [days_of(None, start, end, 2, None)] * nf
        run_and_check(res, "", w, names, [100, 200], opts(None, None, None, False, years), cals, "default" if nf == 1 else "given",
                      constant=long)
        res.stats.transitions += 1
        if cals[0] is ValueError and os.listdir(results_dir()) != ["__init__.py"]:
            if any(f.endswith(".csv") for f in os.listdir(results_dir())):
                res.violate(f"-y {years}: something is written before the error")


def open_case(case, res):
    """one date only: until the end, or from the beginning of its year"""
    i = case[1]
    start, end, par = [(D(2024, 12, 30), None, False), (D(2023, 1, 1), None, True), (None, D(2024, 12, 31), False), (None, D(2023, 1, 1), True)][i]
    with World("n") as w:
        w.input("one.xlsx", 1000)
        cal = days_of(None, start, end, 2, None)
        run_and_check(res, "", w, ["one.xlsx"], [1000], opts(start, end, None, par), [cal], "given")
        res.stats.transitions += 1


# ------------------------------------------------------------------------------------- a folder of 12 files
FOLDERS = {
    "numbers": ("months", "{}.xlsx"),
    "padded": ("in 2023", "month_{:02d}.xlsx"),
    "suffix": (os.path.join("deep", "2024.d"), "input file {} (final).xlsx"),
    "others": ("mixed", "m{}.xlsx"),
}


def folder_case(case, res):
    _, kind, year, tier = case
    folder, pattern = FOLDERS[kind]
    with World("f") as w:
        os.makedirs(folder)
        months = list(range(1, 13))
        # files are not created in the order of the months
        for m in months[::-1] if kind != "padded" else months[5:] + months[:5]:
            w.input(os.path.join(folder, pattern.format(m)), 100 * m)
        if kind == "others":
            for n in ("13.csv", "notes.txt", "14.py", "readme", "m1.xlsx.bak", "m2.xlsx~", "m3.xls", "m13.xlsx.csv"):
                touch(os.path.join(folder, n), "3")
        runs = [(None, False)] if tier == "quick" and kind != "others" else [("a folder", False), (None, True)]
        for out, par in runs:
            before = w.state()
            args = ["-i", folder + (os.path.sep if par else ""), "-y", year] + (["-o", out] if out else []) + (["-p"] if par else [])
            err, q, sched = command(args)
            res.stats.executions += 1
            res.stats.states += 12
            label = " ".join(str(a) for a in args)
            if err is not None:
                res.violate(f"{label}: {err!r}")
                return
            after = w.state()
            new = sorted(k for k in after if after[k] != before.get(k))
            dest = out or ""
            files = [os.path.join(dest, f"yearly_profile_{r}_resolution.csv") for r in ("min", "hourly")]
            if new != sorted(("cwd", f) for f in files):
                res.violate(f"{label}: the files {new} are written instead of {files}")
                return
            want = np.concatenate([expected(100 * m, [D(year, m, d + 1) for d in range(calendar.monthrange(year, m)[1])]) for m in months])
            index = pd.date_range(f"{year}-01-01", periods=len(want), freq="min")
            df = pd.read_csv(files[0], index_col=0)
            if df.shape != (len(want), 1) or not np.allclose(df.values[:, 0], want, rtol=1e-12):
                got = df.values[:, 0]
                n = min(len(got), len(want))
                i = int(np.argmax(np.abs(got[:n] - want[:n]) > 1e-6))
                res.violate(f"{label}: {df.shape} rows, {got[i]} W at {index[i]} instead of {want[i]}")
                return
            for i in (0, 1, 1439, 1440, len(want) // 2, len(want) - 1):
                if pd.Timestamp(df.index[i]) != index[i]:
                    res.violate(f"{label}: the row {i} is at {df.index[i]} instead of {index[i]}")
                    return
            hourly = pd.read_csv(files[1], index_col=0)
            blocks = want.reshape(-1, 60)
            for col, values in (("mean", blocks.mean(axis=1)), ("max", blocks.max(axis=1)), ("min", blocks.min(axis=1))):
                if col not in hourly.columns or len(hourly) != len(values) or not np.allclose(hourly[col].values, values, rtol=1e-12):
                    res.violate(f"{label}: the hourly {col} of the year is not the one of the minutes")
                    return
            for i in (0, 1, 25, len(blocks) - 1):
                if pd.Timestamp(hourly.index[i]) != index[60 * i]:
                    res.violate(f"{label}: the hour {i} is at {hourly.index[i]} instead of {index[60 * i]}")
                    return
            if bool(par) != bool(sched.pools):
                res.violate(f"{label}: parallel processing is {'' if sched.pools else 'not '}used")
            res.stats.transitions += 12
            res.validated += 2
            for f in files:
                os.remove(f)
        res.sample = dict(folder=folder, year=year)


def refuse(res, w, args, label=""):
    before = w.state()
    dirs = sorted(os.listdir(w.dir))
    err, q, sched = command(args)
    res.stats.executions += 1
    res.stats.transitions += 1
    label = " ".join(str(a) for a in args)
    if not isinstance(err, ValueError):
        res.violate(f"{label}: {err!r} instead of ValueError")
    elif w.state() != before or sorted(os.listdir(w.dir)) != dirs:
        res.violate(f"{label}: something is written before the error")
    elif q.asked:
        res.violate(f"{label}: the number of days is asked before the error")


def count_case(case, res):
    """folders which do not contain 12 files"""
    n = case[1]
    with World("c") as w:
        os.makedirs("months")
        for m in range(1, n + 1):
            w.input(os.path.join("months", f"{m}.xlsx"), 100, weekend=False)
        for k in range(12 - n):
            touch(os.path.join("months", f"{n + 1 + k}." + ("txt", "xlsx.bak", "xls", "xlsx.csv")[k % 4]), "x")
        for out in ([], ["-o", "here"]):
            refuse(res, w, ["-i", "months", "-y", "2023"] + out)
            res.stats.states += 1


def contradictory_case(case, res):
    with World("x") as w:
        a, b, c = [w.input(f"{n}.xlsx", 100) for n in "abc"]
        s, e = ["--start-date", "2024-01-01"], ["--end-date", "2024-01-02"]
        for inputs in ([a], [a, b], [a, b, c]):
            for y in (["-y", 2024], ["-y", 2023, 2024]):
                for dates in (s, e, s + e):
                    for n in ([], ["-n", 2]):
                        refuse(res, w, ["-i"] + inputs + y + dates + n)
            for k in range(1, 5):
                if k != len(inputs):
                    refuse(res, w, ["-i"] + inputs + ["-n", 1, "-o"] + [f"o{j}.csv" for j in range(k)])
                    refuse(res, w, ["-i"] + inputs + s + e + ["-o"] + [f"o{j}.csv" for j in range(k)])
                if k not in (1, len(inputs)):
                    refuse(res, w, ["-i"] + inputs + ["-n"] + [1] * k)
                    refuse(res, w, ["-i"] + inputs + s + ["-n"] + [1] * k)
            refuse(res, w, ["-i"] + inputs + ["--start-date", "2024-01-02", "--end-date", "2024-01-01"])
            refuse(res, w, ["-i"] + inputs + ["-y", 2024, 2023])
            for n in (0, -1):
                refuse(res, w, ["-i"] + inputs + ["-n", n])
                refuse(res, w, ["-i"] + inputs + s + ["-n", n])
            res.stats.states += 1
        os.makedirs("dir")
        for dates in (s, e, s + e):
            refuse(res, w, ["-i", "dir", "-y", 2024] + dates)


def none_case(case, res):
    """without input nothing is simulated; files which are not inputs are refused"""
    with World("z") as w:
        before = w.state()
        for args in ([], ["-n", 3], ["-y", 2024], ["--start-date", "2024-01-01"], ["-o", "x.csv"]):
            err, q, _ = command(args)
            res.stats.executions += 1
            if err is not None or w.state() != before:
                res.violate(f"without input: {err!r}")
        touch("x.txt", "3")
        touch("y.csv", "3")
        before = w.state()
        for name in ("x.txt", "y.csv", "missing.xlsx", "missing.py"):
            err, q, _ = command(["-i", name, "-n", 1])
            res.stats.executions += 1
            if not isinstance(err, Exception):
                res.violate(f"the input {name} raises {err}")
            if w.state() != before:
                res.violate(f"the input {name} writes something")
        for args in (["--start-date", "2024-02-30"], ["--start-date", "01/02/2024"], ["-n", "x"], ["-y", "twenty"]):
            a = w.input("a.xlsx", 10) if not os.path.exists("a.xlsx") else "a.xlsx"
            before = w.state()
            err, q, _ = command(["-i", a] + args)
            res.stats.executions += 1
            res.stats.transitions += 1
            if not (isinstance(err, str) and err.startswith("SystemExit")) or w.state() != before:
                res.violate(f"the options {args} are accepted")
        res.stats.states += 1


def same_names_case(case, res):
    """files of the same name in several folders, with outputs"""
    with World("s") as w:
        names = []
        for k, d in enumerate(("a", "b", os.path.join("a", "c"))):
            os.makedirs(d)
            names.append(w.input(os.path.join(d, "in.xlsx"), 1000 * (k + 1)))
        for n in ((1,), (1, 2, 3)):
            per = list(n) * (3 if len(n) == 1 else 1)
            cals = [days_of(x, D(2024, 3, 1), None, 2, None) for x in per]
            run_and_check(res, "", w, names, [1000, 2000, 3000], opts(D(2024, 3, 1), None, n, False), cals, "given")
            res.stats.transitions += 1
        # the same file several times
        cals = [days_of(x, D(2024, 3, 1), None, 2, None) for x in (2, 2)]
        for f in os.listdir(results_dir()):
            if f.endswith(".csv"):
                os.remove(os.path.join(results_dir(), f))
        err, q, _ = command(["-i", names[0], names[0], "-n", 2, "--start-date", "2024-03-01", "-o", "x.csv", "y.csv"])
        if err is not None:
            res.violate(f"the same input given twice: {err!r}")
        for p in ("x.csv", "y.csv"):
            check_series(res, "the same input given twice", p, expected(1000, cals[0]))
        # without outputs
        err, q, _ = command(["-i", names[0], names[1], "-n", 1, "--start-date", "2024-03-01"])
        out = [f for f in os.listdir(results_dir()) if f.endswith(".csv")]
        if err is not None:
            res.violate(f"inputs of the same name: {err!r}")
        elif len(out) != 2:
            res.violate(f"two inputs of the same name in different folders are written to {len(out)} default output", signature="same names, default outputs")


def real_case(case, res):
    """the command itself, in another process and with the real pool"""
    import subprocess

    with World("r") as w:
        a, b = w.input("a b.xlsx", 1000), w.input("b.xlsx", 2000)
        script = w.python("s t.py")
        pkg = os.path.dirname(results_dir())
        env = dict(os.environ, PYTHONPATH=os.path.dirname(pkg), MPLBACKEND="Agg", PYTHONWARNINGS="ignore")
        for par in (False, True):
            args = ["-i", a, script, b, "-n", "2", "3", "4", "--start-date", "2024-03-01", "-o", "x.csv", "y.csv", "z.csv"] + (["-p"] if par else [])
            r = subprocess.run([sys.executable, "-c", "from ramp.cli import main; main()"] + args, env=env, capture_output=True, timeout=300)
            res.stats.executions += 1
            if r.returncode:
                res.violate(f"{' '.join(args)}: exit code {r.returncode}: {r.stderr.decode()[-300:]}")
                return
            check_series(res, " ".join(args), "x.csv", expected(1000, days_of(2, D(2024, 3, 1), None, 2, None)))
            check_series(res, " ".join(args), "z.csv", expected(2000, days_of(4, D(2024, 3, 1), None, 2, None)))
            with open(script + ".ran") as fp:
                ran = fp.read()
            if ran != "x":
                res.violate(f"{' '.join(args)}: {script} is not executed once")
            os.remove(script + ".ran")
            os.remove("x.csv")
            os.remove("z.csv")
            res.stats.transitions += 2
        res.stats.states += 2
