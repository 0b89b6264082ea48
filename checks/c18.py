"""C18 input files: blank optional cells mean defaults, every form of power is read, malformed files are refused"""
import datetime
import itertools
import json
import os
import warnings

from mc import boot
from mc.lib import core
from checks.c17 import BASES, DEFAULTS, compare_usecases, reference, wave

BOUNDS = dict(
    quick="every optional cell (or pair of cells) blanked in every subset of the 3 rows of a file, every pair blanked in one row between "
    "filled rows, every optional column and pair of columns missing; rotations and reversal of the columns; every order of 2 x 3 rows "
    "of users; every pair of 16 forms of power with 7 series, in files saved on any of their sheets; 50 malformed power cells in each row; every assignment of 2 values of num_users and "
    "user_preference to 4 rows",
    thorough="the same with every triple of blank cells, every triple of missing columns and every order of 3 users x 3 rows",
)
ASSUMPTIONS = ["mandatory cells are filled, both cells of a pair (start, end) are filled or blank"]
CASE_TIMEOUT = 850

COLUMNS = ['user_name', 'num_users', 'user_preference', 'name', 'number', 'power', 'num_windows', 'func_time',
           'time_fraction_random_variability', 'func_cycle', 'fixed', 'fixed_cycle', 'continuous_duty_cycle', 'occasional_use', 'flat',
           'thermal_p_var', 'pref_index', 'wd_we_type', 'p_11', 't_11', 'cw11_start', 'cw11_end', 'p_12', 't_12', 'cw12_start',
           'cw12_end', 'r_c1', 'p_21', 't_21', 'cw21_start', 'cw21_end', 'p_22', 't_22', 'cw22_start', 'cw22_end', 'r_c2', 'p_31',
           't_31', 'cw31_start', 'cw31_end', 'p_32', 't_32', 'cw32_start', 'cw32_end', 'r_c3', 'window_1_start', 'window_1_end',
           'window_2_start', 'window_2_end', 'window_3_start', 'window_3_end', 'random_var_w']
PAIRS = ("cw11", "cw12", "cw21", "cw22", "cw31", "cw32", "window_2", "window_3")
# blank cells of these parameters give the default
OPTIONAL = ["time_fraction_random_variability", "fixed", "fixed_cycle", "continuous_duty_cycle", "occasional_use", "flat",
            "thermal_p_var", "pref_index", "wd_we_type", "p_11", "t_11", "cw11", "p_12", "t_12", "cw12", "r_c1", "p_21", "t_21",
            "cw21", "p_22", "t_22", "cw22", "r_c2", "p_31", "t_31", "cw31", "p_32", "t_32", "cw32", "r_c3", "window_2", "window_3",
            "random_var_w"]
# three rows where no parameter has its default value (windows 2 and 3 may be left without use)
FILLED = [
    dict(name="first", number=2, power=100, num_windows=1, func_time=30, time_fraction_random_variability=0.1, func_cycle=2,
         fixed="yes", fixed_cycle=2, continuous_duty_cycle=0, occasional_use=0.5, flat="yes", thermal_p_var=0.25, pref_index=1,
         wd_we_type=1, p_11=10, t_11=3, cw11=(100, 120), p_12=11, t_12=4, cw12=(130, 140), r_c1=0.1, p_21=12.5, t_21=5,
         cw21=(150, 160), p_22=13, t_22=6, cw22=(170, 180), r_c2=0.2, p_31=14, t_31=7, cw31=(190, 200), p_32=15, t_32=8,
         cw32=(210, 220), r_c3=0.3, window_1=(100, 300), window_2=(400, 500), window_3=(600, 700), random_var_w=0.35),
    dict(name="second", number=5, power=0.5, num_windows=1, func_time=60, time_fraction_random_variability=0.5, func_cycle=4,
         fixed="yes", fixed_cycle=3, continuous_duty_cycle=0, occasional_use=0.25, flat="yes", thermal_p_var=0.5, pref_index=2,
         wd_we_type=0, p_11=20, t_11=1, cw11=(101, 121), p_12=21, t_12=2, cw12=(131, 141), r_c1=0.4, p_21=22, t_21=3,
         cw21=(151, 161), p_22=23, t_22=4, cw22=(171, 181), r_c2=0.5, p_31=24, t_31=9, cw31=(191, 201), p_32=25, t_32=10,
         cw32=(211, 221), r_c3=0.6, window_1=(0, 1440), window_2=(1, 2), window_3=(3, 4), random_var_w=0.05),
    dict(name="third", number=7, power=7, num_windows=1, func_time=10, time_fraction_random_variability=1, func_cycle=3,
         fixed="yes", fixed_cycle=2, continuous_duty_cycle=0, occasional_use=0.75, flat="yes", thermal_p_var=1, pref_index=3,
         wd_we_type=1, p_11=30.25, t_11=11, cw11=(0, 1), p_12=31, t_12=12, cw12=(2, 3), r_c1=0.7, p_21=32, t_21=13,
         cw21=(4, 5), p_22=33, t_22=14, cw22=(6, 7), r_c2=0.8, p_31=34, t_31=15, cw31=(8, 9), p_32=35, t_32=16,
         cw32=(10, 11), r_c3=0.9, window_1=(5, 900), window_2=(901, 902), window_3=(903, 1440), random_var_w=1),
]


def cases(tier):
    out = []
    n = 3 if tier == "quick" else 2
    for i in range(0, len(OPTIONAL), n):
        out.append((f"blank-{OPTIONAL[i]}", ("blank", OPTIONAL[i: i + n], tier)))
    out += [(f"cells-{i}", ("cells", i, tier)) for i in range(3)]
    out += [(f"columns-{i}", ("columns", i, tier)) for i in range(4 if tier == "quick" else 12)]
    out += [("order", ("order",)), ("users", ("users", tier)), ("rows", ("rows",))]
    out += [(f"power-{f}", ("power", f)) for f in FORMS]
    out += [(f"malformed-{i}", ("malformed", i)) for i in range(3)]
    return out


def run_case(case, res):
    warnings.simplefilter("ignore")
    globals()[case[0] + "_case"](case, res)


# ------------------------------------------------------------------------------------- files
def cells_of(row):
    """cells of a row of parameters"""
    out = {}
    for k, v in row.items():
        if isinstance(v, tuple):
            out[k + "_start"], out[k + "_end"] = v
        else:
            out[k] = v
    return out


def write(rows, columns=COLUMNS, sheets=None, name="in", active=0):
    """rows: dictionaries of cells"""
    from openpyxl import Workbook

    wb = Workbook()
    ws = wb.active
    ws.append(list(columns))
    for r in rows:
        ws.append([r.get(c) for c in columns])
    for title, content in (sheets or {}).items():
        s = wb.create_sheet(title)
        for (i, j), v in content.items():
            s.cell(row=i, column=j, value=v)
    # the sheet which was shown when the file was saved
    wb.active = active % len(wb.worksheets)
    path = os.path.join(boot.scratch_dir("c18"), name + ".xlsx")
    wb.save(path)
    return path


def load(path):
    uc = core().UseCase()
    uc.load(path)
    return uc


def strip(row, blank):
    return {k: v for k, v in row.items() if k not in blank}


def compare(res, label, rows, users=None, columns=COLUMNS, sheets=None, active=0):
    """write rows (user name, number of users, preference, parameters), load them and compare with the parameters"""
    cells = [dict(cells_of(p), user_name=u, num_users=n, **({} if f is None else {"user_preference": f})) for u, n, f, p in rows]
    path = write(cells, columns, sheets, active=active)
    res.stats.executions += 1
    res.stats.states += len(rows)
    try:
        uc = load(path)
    except Exception as e:
        res.violate(f"{label}: loading the file raises {type(e).__name__}: {str(e)[:150]}")
        return False
    finally:
        os.remove(path)
    refs = {}
    for u, n, f, p in rows:
        refs.setdefault(u, (u, n, f or 0, []))[3].append(reference(p.get("ref", p), p["name"]))
    return compare_usecases(res, label, uc, list(refs.values()))


def present(row):
    """columns which are kept in the parameters: the name of a user is not one of them"""
    return row


# ------------------------------------------------------------------------------------- blank cells
def blank_case(case, res):
    """every subset of rows leaves an optional cell blank"""
    _, units, tier = case
    for unit in units:
        others = [None] if tier == "quick" else [None] + [k for k in OPTIONAL if k != unit]
        for other in others:
            for mask in itertools.product((False, True), repeat=3):
                rows = []
                for i, b in enumerate(mask):
                    drop = ([unit] if b else []) + ([other] if other and (i == 1) else [])
                    rows.append(("u", 2, 3, strip(FILLED[i], drop)))
                res.stats.transitions += sum(mask)
                if not compare(res, f"{unit} blank in rows {[i for i, b in enumerate(mask) if b]}"
                               + (f", {other} blank in row 1" if other else ""), rows):
                    return
    res.sample = dict(units=units)


def cells_case(case, res):
    """two (three) blank cells in a row between filled rows"""
    _, i, tier = case
    todo = list(itertools.combinations(OPTIONAL, 2))
    if tier != "quick":
        todo += list(itertools.combinations(OPTIONAL, 3))
    todo = todo[i::3] + [tuple(OPTIONAL)] + [tuple(OPTIONAL[:k]) for k in range(5, len(OPTIONAL), 4)]
    size = 110
    for start in range(0, len(todo), size):
        rows = []
        for n, drop in enumerate(todo[start: start + size]):
            r = dict(strip(FILLED[n % 3], drop), name=f"a{n}")
            rows.append((f"u{n // 11}", n // 11, (n // 11) % 4, r))
        rows.append(("last", 1, 1, dict(FILLED[1], name="full")))
        res.stats.transitions += len(rows)
        if not compare(res, f"blank cells, rows {start}", rows):
            return


def columns_case(case, res):
    """missing columns"""
    _, i, tier = case
    units = OPTIONAL + ["user_preference"]
    todo = [(u,) for u in units] + list(itertools.combinations(units, 2))
    if tier != "quick":
        todo += list(itertools.combinations(units, 3))
    n = 4 if tier == "quick" else 12
    for drop in todo[i::n]:
        gone = set(drop) | {d + s for d in drop for s in ("_start", "_end")}
        cols = [c for c in COLUMNS if c not in gone]
        f = None if "user_preference" in drop else 2
        rows = [("u", 2, f, strip(r, drop)) for r in FILLED[:2]]
        res.stats.transitions += len(drop)
        if not compare(res, f"columns {drop} missing", rows, columns=cols):
            return


def order_case(case, res):
    """order of the columns, additional columns, representation of numbers"""
    rows = [("u", 2, 3, strip(FILLED[i], OPTIONAL[i::4])) for i in range(3)]
    n = len(COLUMNS)
    orders = [COLUMNS[k:] + COLUMNS[:k] for k in range(n)] + [COLUMNS[::-1], sorted(COLUMNS), sorted(COLUMNS, reverse=True),
                                                              sorted(COLUMNS, key=lambda c: c[::-1])]
    orders += [COLUMNS[::2] + COLUMNS[1::2], COLUMNS[1::2] + COLUMNS[::2]]
    for k, o in enumerate(orders):
        if not compare(res, f"order {k} of the columns", rows, columns=o):
            return
    extra = COLUMNS[:10] + ["comment"] + COLUMNS[10:] + ["source", "Power"]
    noted = [(u, a, b, dict(p, ref=p)) for u, a, b, p in rows]
    for p in noted:
        p[3].update(comment="some text", source=3, Power=1e6)
    compare(res, "additional columns", noted, columns=extra)
    # integers written as numbers with decimals
    floats = []
    for u, a, b, p in rows:
        q = {k: (tuple(float(x) for x in v) if isinstance(v, tuple) else float(v) if isinstance(v, int) else v) for k, v in p.items()}
        floats.append((u, float(a), float(b), dict(q, ref=p)))
    compare(res, "integers written as floats", floats)
    # blank user preference
    for n_rows in (1, 2, 3):
        compare(res, "blank user_preference", [("u", 2, None, r) for r in FILLED[:n_rows]] + [("v", 3, 1, FILLED[0])])
        compare(res, "blank user_preference", [("v", 3, 1, FILLED[0])] + [("u", 2, None, r) for r in FILLED[:n_rows]])


def users_case(case, res):
    """order of the rows of users"""
    names = ["a", "b", "a", "b"] if case[1] == "quick" else ["a", "b", "c", "a", "b", "c"]
    names = sorted(names + ["c", "c"]) if case[1] == "quick" else sorted(names + ["a", "b", "c"])
    users = {"a": (1, 0), "b": (20, 3), "c": (300, 2)}
    seen = sorted(set(itertools.permutations(names))) if case[1] == "quick" else list(multiset(names))
    for perm in seen:
        rows = [(u,) + users[u] + (dict(BASES["plain"], name=f"x{9 - i}", power=i + 1, num_windows=1),) for i, u in enumerate(perm)]
        if not compare(res, f"rows of {''.join(perm)}", rows):
            return
    res.sample = dict(orders=len(seen))


def multiset(names):
    if not names:
        yield ()
        return
    for x in sorted(set(names)):
        rest = list(names)
        rest.remove(x)
        for t in multiset(rest):
            yield (x,) + t


def rows_case(case, res):
    """the rows of a user agree"""
    for what in ("num_users", "user_preference"):
        for values in itertools.product((1, 2), repeat=4):
            for split in ("uuuu", "uvuv", "uvvu", "uuvv", "uuuv"):
                rows = []
                for i, (v, u) in enumerate(zip(values, split)):
                    n, f = (v, 1) if what == "num_users" else (1, v)
                    rows.append((u, n, f, dict(BASES["plain"], name=f"x{i}", num_windows=1)))
                ok = all(len({v for v, w in zip(values, split) if w == u}) == 1 for u in set(split))
                if ok:
                    if not compare(res, f"{what} {values} of {split}", rows):
                        return
                    continue
                refused(res, f"{what} {values} of {split}", [dict(cells_of(p), user_name=u, num_users=n, user_preference=f)
                                                             for u, n, f, p in rows])
    for k in range(1, 3):
        # rows of a user which do not fit in the windows
        p = dict(BASES["plain"], name="x", num_windows=1)
        bad = dict(p, **({"func_time": 401} if k == 1 else {"num_windows": 2}))
        refused(res, "invalid windows", [dict(cells_of(q), user_name="u", num_users=1, user_preference=0) for q in (p, bad)],
                errors=("InvalidWindow",))


def refused(res, label, cells, sheets=None, errors=("ValueError",)):
    path = write(cells, sheets=sheets)
    res.stats.executions += 1
    try:
        load(path)
    except Exception as e:
        if type(e).__name__ not in errors:
            res.violate(f"{label}: {type(e).__name__}: {str(e)[:150]} is raised instead of {errors[0]}")
    else:
        res.violate(f"{label}: the file is accepted")
    finally:
        os.remove(path)


# ------------------------------------------------------------------------------------- power
SERIES = [wave(), [float(i) for i in range(366)], [5] * 366, [0.1] * 365 + [0.333333333333333], list(range(366, 0, -1)),
          # openpyxl writes 16 digits
          [float(f"{i + 1 / 3:.15g}") for i in range(366)], [float(f"{1.5 ** -i / 3:.15g}") for i in range(366)]]
T0 = datetime.datetime(2023, 12, 31, 22)


def sheet(series, row=1, col=1, stamps=None):
    out = {}
    for i, v in enumerate(series):
        if stamps:
            out[row + i, col] = T0 + datetime.timedelta(days=i) if stamps == "dates" else stamps if isinstance(stamps, str) else i
            out[row + i, col + 1] = v
        else:
            out[row + i, col] = v
    return out


def number(k, series):
    v = [0, 100, 12.5, 1e-3, 99999][k % 5]
    return v, {}, v


def text(fmt):
    def f(k, series):
        if fmt == "json":
            s = json.dumps(series)
        elif fmt == "compact":
            s = json.dumps(series, separators=(",", ":"))
        elif fmt == "spaced":
            s = "\n [ " + " ,\n ".join(repr(x) for x in series) + " ] "
        elif fmt == "exponents":
            s = "[" + ", ".join(f"{x:.17e}" for x in series) + "]"
        elif fmt == "numbered":
            s = json.dumps([[i, x] for i, x in enumerate(series)])
        elif fmt == "dated":
            s = json.dumps([[str(T0 + datetime.timedelta(days=i)), x] for i, x in enumerate(series)])
        elif fmt == "column":
            s = json.dumps([[x] for x in series])
        return s, {}, series
    return f


def ref(pattern, row=1, col=1, stamps=None, title="Data"):
    def f(k, series):
        t = title.replace("#", str(k))
        return pattern.replace("#", str(k)), {t: sheet(series, row, col, stamps)}, series
    return f


FORMS = {
    "number": number,
    "json": text("json"), "compact": text("compact"), "spaced": text("spaced"), "exponents": text("exponents"),
    "numbered": text("numbered"), "dated": text("dated"), "column": text("column"),
    "ref": ref("=Data#!B1:B366", col=2, title="Data#"),
    "ref-absolute": ref("=Abs#!$B$2:$B$367", row=2, col=2, title="Abs#"),
    "ref-far": ref("=Far#!AB101:AB466", row=101, col=28, title="Far#"),
    "ref-quoted": ref("='My sheet #'!C3:C368", row=3, col=3, title="My sheet #"),
    "ref-apostrophe": ref("='d''été #'!A1:A366", title="d'été #"),
    "ref-equals": ref("='a=b=#'!$B$1:$B$366", col=2, title="a=b=#"),
    "ref-exclamation": ref("='now! or never! #'!A4:A369", row=4, title="now! or never! #"),
    "ref-two": ref("=Two#!A1:B366", stamps="numbers", title="Two#"),
    "ref-two-dates": ref("=TwoD#!C5:D370", row=5, col=3, stamps="dates", title="TwoD#"),
    "ref-two-text": ref("=TwoT#!$Y$5:$Z$370", row=5, col=25, stamps="day", title="TwoT#"),
    "ref-space": ref("= Space#!B1:B366", col=2, title=" Space#"),
}
del FORMS["ref-space"]


def power_case(case, res):
    """each form of power, next to every other form in the file"""
    form = case[1]
    for k, series in enumerate(SERIES):
        for n, other in enumerate(FORMS):
            rows, sheets = [], {}
            forms = [form, other, form] if k % 2 else [other, form, "number"]
            for i, f in enumerate(forms):
                s = SERIES[(k + (f != form)) % len(SERIES)]
                cell, sh, want = FORMS[f](i, s)
                sheets.update(sh)
                p = dict(BASES["plain"], name=f"x{i}", num_windows=1)
                rows.append((["u", "v", "u"][i], 1, 0, dict(p, power=cell, ref=dict(p, power=want))))
            res.stats.transitions += 3
            active = (k + n) % (1 + len(sheets))
            if not compare(res, f"power given as {forms}, series {k}, file saved on the sheet {active}", rows, sheets=sheets,
                           active=active):
                return
    res.sample = dict(form=form, series=len(SERIES), others=len(FORMS))


def bad_powers():
    s = wave()
    out = {}
    for n in (0, 1, 365, 367, 24, 1440):
        vals = [1.5 + i for i in range(n)]
        out[f"{n} values"] = (json.dumps(vals), {})
        if n > 0:
            out[f"{n} rows"] = (f"=D!A1:A{n}", {"D": sheet(vals)})
            out[f"{n} rows of two columns"] = (f"=D!A1:B{n}", {"D": sheet(vals, stamps="numbers")})
        out[f"{n} pairs"] = (json.dumps([[i, v] for i, v in enumerate(vals)]), {})
    out["three columns"] = ("=D!A1:C366", {"D": {**sheet(s, stamps="numbers"), **sheet(s, col=3)}})
    out["366 columns"] = ("=D!A1:NB1", {"D": {(1, i + 1): v for i, v in enumerate(s)}})
    out["four columns"] = ("=D!A1:D366", {"D": {**sheet(s, stamps="numbers"), **sheet(s, col=3, stamps="numbers")}})
    out["triples"] = (json.dumps([[i, v, v] for i, v in enumerate(s)]), {})
    out["ragged"] = (json.dumps([[i, v] for i, v in enumerate(s[:-1])] + [3]), {})
    out["values as text"] = (json.dumps([str(v) for v in s]), {})
    out["one value as text"] = (json.dumps(s[:-1] + ["7"]), {})
    out["one null"] = (json.dumps(s[:100] + [None] + s[101:]), {})
    out["one NaN"] = (json.dumps(s[:100] + [float("nan")] + s[101:]), {})
    out["one infinite"] = (json.dumps(s[:100] + [float("inf")] + s[101:]), {})
    out["not closed"] = (json.dumps(s)[:-1], {})
    out["no brackets"] = (json.dumps(s)[1:-1], {})
    out["object"] = (json.dumps({str(i): v for i, v in enumerate(s)}), {})
    out["text"] = ("hundred", {})
    out["number as text"] = ("100", {})
    out["quoted"] = (json.dumps("x" * 366), {})
    out["words"] = ("100 W", {})
    out["null"] = ("null", {})
    for what, v in (("blank", None), ("text", "n/a"), ("number as text", "12")):
        vals = dict(sheet(s))
        vals[50, 1] = v
        out[f"a {what} cell"] = ("=D!A1:A366", {"D": vals})
        vals = dict(sheet(s, stamps="numbers"))
        vals[50, 2] = v
        out[f"a {what} cell of the second column"] = ("=D!A1:B366", {"D": vals})
    out["a blank column"] = ("=D!D1:D366", {"D": sheet(s)})
    out["dates"] = ("=D!A1:A366", {"D": sheet(s, stamps="dates")})
    out["swapped columns"] = ("=D!A1:B366", {"D": {(i, 3 - j): v for (i, j), v in sheet(s, stamps="day").items()}})
    return out


def malformed_case(case, res):
    i = case[1]
    bad = bad_powers()
    for what, (cell, sheets) in bad.items():
        for good in ("number", "json", "ref-two-dates"):
            cells = []
            content = dict(sheets)
            for j in range(3):
                p = cells_of(dict(BASES["plain"], name=f"x{j}", num_windows=1))
                if j == i:
                    p["power"] = cell
                else:
                    p["power"], sh, _ = FORMS[good](j, SERIES[0])
                    content.update(sh)
                cells.append(dict(p, user_name="uvu"[j], num_users=1, user_preference=0))
            res.stats.states += 1
            refused(res, f"power cell with {what} in row {i}", cells, content)
            if len(res.violations) > 3:
                return
    res.sample = dict(malformed=len(bad))
