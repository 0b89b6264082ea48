"""C23 results and Plot objects keep, export and aggregate the data exactly"""
import itertools
import math
import os
import warnings

import numpy as np
import pandas as pd

from mc import boot
from mc.lib import core

BOUNDS = dict(
    quick="every frame of 2 rows x 2 columns over {0, 1, 2.5, 4} and of 3 x 1 over 5 values with every query; every reachable state of a Plot "
    "under 27 operations up to depth 3 from 3 frames (the original is compared after every in-place operation on what was derived from it, up to depth 2); "
    "files: 5 frames x 4 separators x excel x index given or not; figures of both engines; every argument combination of export_series; "
    "post-processing of up to 3 profiles; refused arguments",
    thorough="the same with depth 4 and frames of 3 x 2",
)
ASSUMPTIONS = [
    "index sorted without duplicates, column names are strings",
    "matplotlib figures are observed at the calls of pandas' plot accessor and of Axes.plot",
]
CASE_TIMEOUT = 850


def cases(tier):
    out = [(f"grid-{i}", ("grid", i, tier)) for i in range(4)]
    for b in BASES:
        for i in range(len(OPS)):
            out.append((f"history-{b}-{i}", ("history", b, i, 3 if tier == "quick" else 4)))
    out += [(f"files-{b}-{i}", ("files", b, i)) for b in FILE_FRAMES for i in range(2)]
    out += [(k, (k,)) for k in ("sheets", "refused", "plotly", "matplotlib", "export", "formatting", "usecase")]
    return out


def run_case(case, res):
    warnings.simplefilter("ignore")
    globals()[case[0] + "_case"](case, res)


# ---------------------------------------------------------------- reference model


class Ref:
    """times in minutes since 2020-01-01, column names, rows of values"""

    def __init__(self, times, cols, rows):
        self.times, self.cols, self.rows = list(times), list(cols), [list(r) for r in rows]

    def frame(self):
        return pd.DataFrame([list(map(float, r)) for r in self.rows], index=stamps(self.times), columns=self.cols)

    def col(self, c):
        j = self.cols.index(c)
        return [r[j] for r in self.rows]

    def select(self, rows=None, cols=None):
        rows = range(len(self.times)) if rows is None else rows
        cols = self.cols if cols is None else cols
        js = [self.cols.index(c) for c in cols]
        return Ref([self.times[i] for i in rows], cols, [[self.rows[i][j] for j in js] for i in rows])

    def key(self):
        return repr((self.times, self.cols, self.rows))


T0 = pd.Timestamp("2020-01-01")


def stamps(times):
    return pd.DatetimeIndex([T0 + pd.Timedelta(minutes=t) for t in times])


def same(a, b):
    if isinstance(a, float) and isinstance(b, float) and math.isnan(a) and math.isnan(b):
        return True
    return a == b or (math.isfinite(a) and math.isfinite(b) and abs(a - b) <= 1e-12 * max(abs(a), abs(b)))


def frame_diff(df, ref):
    """what differs between the data and the reference"""
    if not isinstance(df, pd.DataFrame):
        return f"the data is a {type(df).__name__}"
    if list(df.columns) != ref.cols:
        return f"columns {list(df.columns)} instead of {ref.cols}"
    want = list(stamps(ref.times))
    if list(df.index) != want:
        return f"index {list(map(str, df.index))} instead of {list(map(str, want))}"
    got = df.values.tolist()
    for t, g, w in zip(want, got, ref.rows):
        for c, x, y in zip(ref.cols, g, w):
            if not same(float(x), float(y)):
                return f"value {x!r} instead of {y!r} at {t} in {c}"
    return None


def clean(values):
    return [v for v in values if not math.isnan(v)]


def agg(rule, values):
    v = clean(values)
    if rule == "sum":
        return math.fsum(v)
    if not v:
        return math.nan
    return dict(mean=lambda: math.fsum(v) / len(v), max=lambda: max(v), min=lambda: min(v), first=lambda: v[0], last=lambda: v[-1])[rule]()


def ref_resample(r, minutes, rule, conversion):
    if not r.times:
        return None
    b0, b1 = r.times[0] // minutes, r.times[-1] // minutes
    if b1 - b0 > 40:
        return None
    out = []
    for b in range(b0, b1 + 1):
        rows = [[v / conversion for v in row] for t, row in zip(r.times, r.rows) if t // minutes == b]
        out.append([agg(rule, [row[j] for row in rows]) for j in range(len(r.cols))])
    return Ref([b * minutes for b in range(b0, b1 + 1)], r.cols, out)


# ---------------------------------------------------------------- operations: (name, in place, on the Plot, on the reference)
# the reference function returns None when the operation does not apply


def op_list():
    ops = []

    def op(name, inplace, real, ref):
        ops.append((name, inplace, real, ref))

    op("copy()", False, lambda p, r: p.copy(), lambda r: r.select())
    op("head(1)", False, lambda p, r: p.head(1), lambda r: r.select(range(min(1, len(r.times)))))
    op("head(2)", False, lambda p, r: p.head(2), lambda r: r.select(range(min(2, len(r.times)))))
    op("head(50)", False, lambda p, r: p.head(50), lambda r: r.select())
    op("[last column]", False, lambda p, r: p[r.cols[-1]], lambda r: r.select(cols=r.cols[-1:]))
    op("[columns reversed]", False, lambda p, r: p[r.cols[::-1]], lambda r: r.select(cols=r.cols[::-1]) if len(r.cols) > 1 else None)
    op("loc()", False, lambda p, r: p.loc(), lambda r: r.select())
    op("loc(columns=name)", False, lambda p, r: p.loc(columns=r.cols[0]), lambda r: r.select(cols=r.cols[:1]))
    op("loc(columns=[name])", False, lambda p, r: p.loc(columns=[r.cols[-1]]), lambda r: r.select(cols=r.cols[-1:]))
    op("loc(one time)", False, lambda p, r: p.loc(T0 + pd.Timedelta(minutes=r.times[-1])), lambda r: r.select([len(r.times) - 1]) if r.times else None)
    op("loc(slice of times)", False, lambda p, r: p.loc(slice(str(stamps(r.times)[0]), str(stamps(r.times)[1]))),
       lambda r: r.select([0, 1]) if len(r.times) > 2 else None)
    op("loc(times, columns)", False, lambda p, r: p.loc(list(stamps([r.times[0], r.times[-1]])), [r.cols[-1], r.cols[0]]),
       lambda r: r.select([0, len(r.times) - 1], [r.cols[-1], r.cols[0]]) if len(r.times) > 1 and len(r.cols) > 1 else None)
    op("iloc(0)", False, lambda p, r: p.iloc(0), lambda r: r.select([0]) if r.times else None)
    op("iloc(columns=-1)", False, lambda p, r: p.iloc(columns=-1), lambda r: r.select(cols=r.cols[-1:]))
    op("iloc(slice(1, None))", False, lambda p, r: p.iloc(slice(1, None)), lambda r: r.select(range(1, len(r.times))) if len(r.times) > 1 else None)
    op("iloc([0, 2], [0])", False, lambda p, r: p.iloc([0, 2], [0]), lambda r: r.select([0, 2], r.cols[:1]) if len(r.times) > 2 else None)
    op("mean()", False, lambda p, r: p.mean(), lambda r: Ref(r.times, ["Mean"], [[agg("mean", x)] for x in r.rows]))
    op("sum()", False, lambda p, r: p.sum(), lambda r: Ref(r.times, ["Sum"], [[agg("sum", x)] for x in r.rows]))
    for minutes, freq, rule, conv in ((60, "1h", "sum", 1), (2, "2min", "mean", 4), (1440, "1d", "max", 0.5), (30, "30min", "sum", 60)):
        op(f"resample({freq!r}, {rule!r}, {conv})", False, lambda p, r, f=freq, u=rule, c=conv: p.resample(f, u, c),
           lambda r, m=minutes, u=rule, c=conv: ref_resample(r, m, u, c))
    op("resample('2min', 'sum', 2, inplace=True)", True, lambda p, r: p.resample("2min", "sum", conversion=2, inplace=True),
       lambda r: ref_resample(r, 2, "sum", 2))
    op("columns = ", True, lambda p, r: setattr(p, "columns", [f"x{i}" for i in range(len(r.cols))]),
       lambda r: Ref(r.times, [f"x{i}" for i in range(len(r.cols))], r.rows))
    op("add_column(new)", True, lambda p, r: p.add_column(pd.DataFrame({"new": [7.0 + i for i in range(len(r.times))]}, index=stamps(r.times))),
       lambda r: with_column(r, "new", [7.0 + i for i in range(len(r.times))]))

    def add_double(p, r):
        other = p.copy()
        other.columns = ["d" + c for c in r.cols]
        p.add_column(other)

    op("add_column(Plot)", True, add_double, lambda r: Ref(r.times, r.cols + ["d" + c for c in r.cols], [x + x for x in r.rows])
       if len(r.cols) < 3 and not any("d" + c in r.cols for c in r.cols) else None)
    op("add_column(existing)", True, lambda p, r: p.add_column(pd.DataFrame({r.cols[0]: [3.0] * len(r.times)}, index=stamps(r.times))),
       lambda r: with_column(r, r.cols[0], [3.0] * len(r.times)))
    return ops


def with_column(r, name, values):
    if name in r.cols:
        j = r.cols.index(name)
        return Ref(r.times, r.cols, [x[:j] + [v] + x[j + 1:] for x, v in zip(r.rows, values)])
    return Ref(r.times, r.cols + [name], [x + [v] for x, v in zip(r.rows, values)])


OPS = op_list()


# ---------------------------------------------------------------- queries


def queries(p, r):
    """differences between the answers of the Plot and the reference"""
    if list(p.columns) != r.cols:
        yield f".columns is {p.columns}"
    if list(p.index) != list(stamps(r.times)):
        yield f".index is {p.index}"
    peak = p.peak
    if list(peak) != r.cols:
        yield f".peak has the keys {list(peak)}"
    else:
        for c in r.cols:
            v = r.col(c)
            m = max(clean(v)) if clean(v) else None
            want = [(t, x) for t, x in zip(r.times, v) if m is not None and x == m]
            got = list(zip(peak[c].index, peak[c].tolist()))
            if got != [(T0 + pd.Timedelta(minutes=t), x) for t, x in want]:
                yield f".peak[{c}] is {got}, expected {want}"
    for a in r.cols:
        for b in r.cols:
            er = p.error(a, b)
            want = []
            for x, y in zip(r.col(a), r.col(b)):
                d = x - y
                if math.isnan(d) or (y == 0 and d == 0):
                    want.append(0.0)
                elif y == 0:
                    want.append(math.copysign(math.inf, d))
                else:
                    want.append(d / y * 100)
            got = er.tolist()
            if list(er.index) != list(stamps(r.times)) or not all(same(g, w) for g, w in zip(got, want)):
                yield f".error({a}, {b}) is {got}, expected {want}"
    text = str(p)
    if not all(c in text for c in r.cols) or repr(p) != text:
        yield "the representation does not show the columns"
    for obj, what in ((p.freq, "freq"),):
        if obj is not None and len(r.times) > 1:
            step = (T0 + obj) - T0
            if any(b - a != step / pd.Timedelta(minutes=1) for a, b in zip(r.times, r.times[1:])):
                yield f".freq is {obj} for the times {r.times}"


def duration_curve(p, r, res, tag):
    for c in r.cols:
        fig = p.load_duration_curve(c, engine="plotly")
        xs, ys, names = traces(fig)
        want = sorted(r.col(c), reverse=True)
        if len(ys) != 1 or ys[0] != want or xs[0] != list(range(1, len(want) + 1)):
            res.violate(f"{tag}: load_duration_curve({c!r}) shows {list(zip(xs, ys))} instead of {want} at 1, 2, ...")


def verify(p, r, res, tag, with_queries=True):
    Plot = plot_class()
    if not isinstance(p, Plot):
        res.violate(f"{tag}: gives a {type(p).__name__} and not a Plot")
        return False
    d = frame_diff(p.df, r)
    if d:
        res.violate(f"{tag}: {d}")
        return False
    # the last bits of the values are the ones of the code: what follows is computed from them
    r.rows = [[float(v) for v in x] for x in p.df.values.tolist()]
    if with_queries:
        for q in queries(p, r):
            res.violate(f"{tag}: {q}")
            return False
        d = frame_diff(p.DataFrame, r)
        if d:
            res.violate(f"{tag}: after the queries: {d}")
            return False
    res.validated += 1
    return True


def plot_class():
    import ramp.post_process.post_process as pp

    return pp.Plot


# ---------------------------------------------------------------- every small frame


def grid_case(case, res):
    _, part, tier = case
    Plot = plot_class()
    shapes = [(2, 2, (0, 1, 2.5, 4)), (3, 1, (0, 1, 2.5, 4, -1))]
    if tier != "quick":
        shapes.append((3, 2, (0, 1, 2.5)))
    n = 0
    for rows, ncols, alphabet in shapes:
        for vals in itertools.product(alphabet, repeat=rows * ncols):
            n += 1
            if n % 4 != part:
                continue
            r = Ref([1430 + 5 * i for i in range(rows)], ["case 1", "case 2"][:ncols], [[float(v) for v in vals[i * ncols:(i + 1) * ncols]] for i in range(rows)])
            p = Plot(r.frame())
            res.stats.executions += 1
            res.stats.states += 1
            if not verify(p, r, res, f"frame {r.rows}"):
                return
            for name, inplace, real, ref in OPS:
                if inplace:
                    continue
                want = ref(r)
                if want is None:
                    continue
                res.stats.transitions += 1
                if not verify(real(p, r), want, res, f"frame {r.rows}: {name}", with_queries=False):
                    return
            if not verify(p, r, res, f"frame {r.rows} after the operations", with_queries=False):
                return
    res.sample = dict(frame=r.rows, mean=p.mean().df["Mean"].tolist(), peak={k: v.tolist() for k, v in p.peak.items()})


# ---------------------------------------------------------------- histories

BASES = {
    "minutes": Ref([1437, 1438, 1439, 1440, 1441], ["case 1", "case 2"], [[0, 3], [2.5, 3], [4, 0], [0, 0], [1, 7]]),
    "hours": Ref([0, 60, 120], ["A", "B", "C"], [[5, 5, 1], [0, 2, 9], [5, 0, 9]]),
    "irregular": Ref([3, 10, 61, 2885], ["only"], [[1], [0.25], [8], [8]]),
}


def history_case(case, res):
    """every sequence of operations of the given depth starting with one of them, states already seen are not expanded again"""
    _, base, first, depth = case
    Plot = plot_class()
    start = BASES[base]
    start = Ref(start.times, start.cols, [[float(v) for v in x] for x in start.rows])
    seen = set()

    def step(p, r, i, path):
        """apply operation i; returns the resulting Plot, its reference (or None when it does not apply / differs)"""
        name, inplace, real, ref = OPS[i]
        want = ref(r)
        if want is None:
            return None
        tag = base + ": " + " ; ".join(path + [name])
        res.stats.transitions += 1
        try:
            got = real(p, r)
        except Exception as e:
            res.violate(f"{tag} raises {type(e).__name__}: {e}")
            return None
        if inplace:
            if got is not None:
                res.violate(f"{tag} returns {type(got).__name__}")
            got = p
        elif got is p:
            res.violate(f"{tag} returns the same object")
        if not verify(got, want, res, tag):
            return None
        return got, want, inplace

    def rec(p, r, path, left):
        """p is a Plot in state r; it is left as it is"""
        for i in (range(len(OPS)) if path else [first]):
            if len(res.violations) > 3:
                return
            obj = Plot(r.frame())
            if path:
                # work on an object obtained by an operation, not on a new one
                obj = p.copy()
            out = step(obj, r, i, path)
            if out is None:
                continue
            new, want, inplace = out
            name = OPS[i][0]
            if not inplace and len(path) < 2:
                # what is derived does not share the data: every in-place operation on it leaves the original as it was
                for k, (n2, in2, real2, ref2) in enumerate(OPS):
                    if not in2 or ref2(want) is None:
                        continue
                    derived = OPS[i][2](obj, r)
                    real2(derived, want)
                    res.stats.transitions += 1
                    if not verify(obj, r, res, f"{base}: {' ; '.join(path + [name])} ; {n2} on the result changes the original", with_queries=False):
                        return
                    if frame_diff(derived.df, ref2(want)):
                        res.violate(f"{base}: {' ; '.join(path + [name])} ; {n2}: {frame_diff(derived.df, ref2(want))}")
                        return
            k = (want.key(), left)
            if left > 1 and k not in seen:
                seen.add(k)
                res.stats.states += 1
                rec(new, want, path + [name], left - 1)

    df = start.frame()
    p = Plot(df)
    if not verify(p, start, res, base):
        return
    res.stats.executions += 1
    rec(p, start, [], depth)
    if frame_diff(df, start):
        res.violate(f"{base}: the frame given to Plot is modified by operations on copies of it: {frame_diff(df, start)}")
    res.sample = dict(start=start.rows, first=OPS[first][0], states=len(seen))


# ---------------------------------------------------------------- files

FILE_FRAMES = {
    "minutes": Ref(range(1435, 1445), ["case 1", "case 2"], [[i * 1.1, 100 / 3 + i] for i in range(10)]),
    "names": Ref([0, 60], ["a,b", "c;d", 'q"uote', "é è", " spaced "], [[1, 2, 3, 4, 5], [6, 7, 8, 9, 0]]),
    "extremes": Ref([0, 1440, 2880], ["x", "y"], [[1e-9, 1e12], [123456.789012345, 0], [0.1 + 0.2, -1.5]]),
    "single": Ref([30], ["only"], [[2]]),
    "integers": Ref([0, 15, 30], ["i", "j"], [[1, 0], [2, 100000], [3, 5]]),
}


def files_case(case, res):
    _, base, how = case
    Plot = plot_class()
    r = FILE_FRAMES[base]
    r = Ref(r.times, r.cols, [[float(v) for v in x] for x in r.rows])
    d = boot.scratch_dir("c23")
    for sep in (",", ";", "\t", "|"):
        for given in (False, True):
            p = Plot(r.frame())
            path = os.path.join(d, "f.csv" if how else "res.v1.csv")
            args = {} if sep == "," and how else {"sep": sep}
            p.to_csv(path, **args)
            res.stats.executions += 1
            tag = f"{base}: to_csv({args}) and from_file"
            if not verify(p, r, res, tag, with_queries=False):
                return
            try:
                q = Plot.from_file(path, index=stamps(r.times) if given else None, **args)
            except Exception as e:
                res.violate(f"{tag} raises {type(e).__name__}: {e}")
                return
            if not given:
                # the labels of the index are read as they are written
                if list(map(str, q.df.index)) != list(map(str, pd.read_csv(path, index_col=0, header=0, sep=sep).index)) or \
                        list(pd.to_datetime(q.df.index)) != list(stamps(r.times)):
                    res.violate(f"{tag}: the index is {list(q.df.index)}")
                    return
                q = Plot(q.df, index=pd.to_datetime(q.df.index))
            if not verify(q, r, res, tag):
                return
    for given in (False, True):
        p = Plot(r.frame())
        path = os.path.join(d, "f.xlsx")
        p.to_excel(path)
        tag = f"{base}: to_excel and from_file"
        res.stats.executions += 1
        if not verify(p, r, res, tag, with_queries=False):
            return
        shift = [t + 5000 for t in r.times]
        q = Plot.from_file(path, index=stamps(shift) if given else None)
        if not verify(q, Ref(shift if given else r.times, r.cols, r.rows), res, tag):
            return
    res.sample = dict(frame=base, columns=r.cols)


def sheets_case(case, res):
    Plot = plot_class()
    d = boot.scratch_dir("c23")
    path = os.path.join(d, "two.xlsx")
    rs = {"first": BASES["minutes"], "Second one": BASES["hours"], "3": BASES["irregular"]}
    with pd.ExcelWriter(path) as w:
        for k, r in rs.items():
            r.frame().to_excel(w, sheet_name=k)
    names = list(rs)
    for sel in [0, 1, 2] + names:
        res.stats.executions += 1
        verify(Plot.from_file(path, sheet_name=sel), rs[sel if isinstance(sel, str) else names[sel]], res, f"sheet {sel!r}")
    verify(Plot.from_file(path), rs["first"], res, "first sheet by default")
    for bad in ("a.txt", "a.xls", "a.json", "a", "a.csv.gz"):
        full = os.path.join(d, bad)
        with open(full, "w") as fp:
            fp.write("t,a\n2020-01-01,1\n")
        expect_error(res, ValueError, lambda: Plot.from_file(full), f"from_file({bad!r})")


def expect_error(res, kind, fn, what):
    res.stats.executions += 1
    try:
        out = fn()
    except kind:
        res.validated += 1
    except Exception as e:
        res.violate(f"{what} raises {type(e).__name__}: {e} instead of {kind.__name__}")
    else:
        res.violate(f"{what} is accepted and gives {out!r}")


def refused_case(case, res):
    Plot = plot_class()
    for base, r in BASES.items():
        ts = r.times
        others = {
            "shifted": [t + 1 for t in ts], "shorter": ts[:-1], "longer": ts + [ts[-1] + 1], "reversed": ts[::-1] if len(ts) > 1 else [9],
            "last moved": ts[:-1] + [ts[-1] + 1], "first moved": [ts[0] - 1] + ts[1:], "empty": [],
        }
        for what, times in others.items():
            for as_plot in (False, True):
                p = Plot(r.frame())
                v = pd.DataFrame({"n": [1.0] * len(times)}, index=stamps(times))
                expect_error(res, ValueError, lambda: p.add_column(Plot(v) if as_plot else v), f"{base}: add_column with {what} index")
                verify(p, r, res, f"{base}: after a refused column ({what})")
        for what, v in (("a list", [1.0] * len(ts)), ("a series", r.frame()[r.cols[0]]), ("an array", np.ones(len(ts))), ("None", None)):
            p = Plot(r.frame())
            expect_error(res, ValueError, lambda: p.add_column(v), f"{base}: add_column({what})")
            expect_error(res, ValueError, lambda: Plot(v), f"{base}: Plot({what})")
            expect_error(res, ValueError, lambda: setattr(p, "DataFrame", v), f"{base}: DataFrame = {what}")
            verify(p, r, res, f"{base}: after refused data ({what})")
        # a new index is given: the frame of the caller is not modified
        df = r.frame()
        shift = [t + 7 for t in ts]
        verify(Plot(df, stamps(shift)), Ref(shift, r.cols, r.rows), res, f"{base}: Plot(df, index)")
        verify(Plot(df, index=stamps(shift)), Ref(shift, r.cols, r.rows), res, f"{base}: Plot(df, index=)")
        if frame_diff(df, r):
            res.violate(f"{base}: Plot(df, index) modifies the frame of the caller: {frame_diff(df, r)}")
        # replaced data
        p = Plot(df)
        other = BASES["hours"]
        p.DataFrame = other.frame()
        verify(p, other, res, f"{base}: DataFrame = another frame")
        for eng in ("bokeh", "", "matplotlib2"):
            for meth in ("line", "area", "shadow"):
                expect_error(res, ValueError, lambda: getattr(Plot(r.frame()), meth)(engine=eng), f"{meth}(engine={eng!r})")
            expect_error(res, ValueError, lambda: Plot(r.frame()).load_duration_curve(r.cols[0], engine=eng), f"load_duration_curve(engine={eng!r})")
        for eng in ("plotly", "matplotlib"):
            expect_error(res, ValueError, lambda: Plot(r.frame()).shadow(average=False, engine=eng), "shadow(average=False)")
            expect_error(res, ValueError, lambda: Plot(r.frame()).shadow(main_column=r.cols[0], engine=eng), "shadow(main_column, average=True)")


# ---------------------------------------------------------------- figures


def traces(fig):
    xs, ys, names = [], [], []
    for t in fig.data:
        x = [pd.Timestamp(v) if not isinstance(v, (int, np.integer)) else int(v) for v in np.asarray(t.x).tolist()] \
            if np.asarray(t.x).dtype.kind not in "M" else [pd.Timestamp(v) for v in np.asarray(t.x)]
        xs.append(x)
        ys.append([float(v) for v in np.asarray(t.y).ravel()])
        names.append(t.name)
    return xs, ys, names


def subsets(cols):
    yield None, cols
    for k in range(1, len(cols) + 1):
        for c in itertools.combinations(cols, k):
            yield list(c), list(c)
    for c in cols:
        yield c, [c]


def plotly_case(case, res):
    Plot = plot_class()
    for base, r in BASES.items():
        p = Plot(r.frame())
        times = list(stamps(r.times))
        for eng in ("plotly", "Plotly", "PLOTLY"):
            for kind in ("line", "area"):
                for arg, cols in subsets(r.cols):
                    if eng != "plotly" and arg is not None:
                        continue
                    res.stats.executions += 1
                    fig = getattr(p, kind)(arg, engine=eng, title="the title")
                    xs, ys, names = traces(fig)
                    want = [[float(v) for v in r.col(c)] for c in cols]
                    got = dict(zip(names, ys))
                    ok = ys == want and all(x == times for x in xs) and (len(cols) == 1 or got == dict(zip(cols, want)))
                    if not ok:
                        res.violate(f"{base}: {kind}({arg!r}) shows {list(zip(names, ys))} instead of {dict(zip(cols, want))}")
                    elif fig.layout.title.text != "the title":
                        res.violate(f"{base}: {kind} ignores the arguments of the layout")
                    else:
                        res.validated += 1
            for arg, cols in [("all", r.cols), ("ALL", r.cols)] + list(subsets(r.cols))[1:]:
                mains = [None] + r.cols
                for main in mains:
                    res.stats.executions += 1
                    kw = dict(average=True) if main is None else dict(average=False, main_column=main)
                    fig = p.shadow(columns=arg, engine=eng, **kw)
                    xs, ys, names = traces(fig)
                    dark = [agg("mean", list(map(float, x))) for x in r.rows] if main is None else [float(v) for v in r.col(main)]
                    want = [dark] + [[float(v) for v in r.col(c)] for c in cols]
                    if len(ys) != len(want) or not all(same(a, b) for u, v in zip(ys, want) for a, b in zip(u, v)) or any(x != times for x in xs):
                        res.violate(f"{base}: shadow(columns={arg!r}, {kw}) shows {ys} instead of {want}")
                    elif names[0] != ("Average" if main is None else main):
                        res.violate(f"{base}: shadow({kw}) calls its dark line {names[0]}")
                    else:
                        res.validated += 1
        duration_curve(p, Ref(r.times, r.cols, [[float(v) for v in x] for x in r.rows]), res, base)
        verify(p, r, res, f"{base} after the figures")


class Recorder:
    """stands for the plot accessor of pandas: keeps what is drawn"""

    drawn = []

    def __init__(self, df):
        self.df = df

    def __call__(self, *args, **kw):
        kind = kw.pop("kind", args[0] if args else "line")
        rec = (kind, self.df.copy(), kw)
        Recorder.drawn.append(rec)
        return rec

    def line(self, *a, **kw):
        return self(kind="line", **kw)

    def area(self, *a, **kw):
        return self(kind="area", **kw)


def matplotlib_case(case, res):
    import matplotlib.pyplot as plt

    Plot = plot_class()
    saved = pd.DataFrame.plot
    pd.DataFrame.plot = property(Recorder)
    try:
        for base, r in BASES.items():
            p = Plot(r.frame())
            for eng in ({}, {"engine": "matplotlib"}, {"engine": "Matplotlib"}):
                for kind in ("line", "area"):
                    for arg, cols in subsets(r.cols):
                        if isinstance(arg, str):
                            continue
                        Recorder.drawn = []
                        res.stats.executions += 1
                        out = getattr(p, kind)(arg, lw=3, **eng)
                        if len(Recorder.drawn) != 1 or out is not Recorder.drawn[0] or out[0] != kind or out[2] != {"lw": 3}:
                            res.violate(f"{base}: {kind}({arg!r}) draws {Recorder.drawn}")
                            continue
                        d = frame_diff(out[1], r.select(cols=cols))
                        if d:
                            res.violate(f"{base}: {kind}({arg!r}): {d}")
                        res.validated += 1
                for c in r.cols:
                    Recorder.drawn = []
                    out = p.load_duration_curve(c, lw=2, **eng)
                    want = sorted((float(v) for v in r.col(c)), reverse=True)
                    if out[0] != "line" or out[2] != {"lw": 2} or out[1].values.ravel().tolist() != want or list(out[1].index) != list(range(1, len(want) + 1)):
                        res.violate(f"{base}: load_duration_curve({c!r}) draws {out}")
                    res.validated += 1
                out = p.plot(title="t")
                if frame_diff(out[1], r) or out[2] != {"title": "t"}:
                    res.violate(f"{base}: plot() draws {out}")
                for arg, cols in [("all", r.cols)] + list(subsets(r.cols))[1:]:
                    for main in [None] + r.cols:
                        kw = dict(average=True) if main is None else dict(average=False, main_column=main)
                        res.stats.executions += 1
                        fig, ax = p.shadow(columns=arg, **kw, **eng)
                        got = [[float(v) for v in line.get_ydata()] for line in ax.lines]
                        dark = [agg("mean", list(map(float, x))) for x in r.rows] if main is None else [float(v) for v in r.col(main)]
                        want = [dark] + [[float(v) for v in r.col(c)] for c in cols]
                        if len(got) != len(want) or not all(same(a, b) for u, v in zip(got, want) for a, b in zip(u, v)):
                            res.violate(f"{base}: shadow(columns={arg!r}, {kw}) draws {got} instead of {want}")
                        plt.close(fig)
                        res.validated += 1
            verify(p, r, res, f"{base} after the figures")
    finally:
        pd.DataFrame.plot = saved


# ---------------------------------------------------------------- results of runs


def export_case(case, res):
    """export_series: which file is written, and its content"""
    with boot.private_package():
        import ramp.post_process.post_process as pp

        results = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(pp.__file__))), "results")
        d = boot.scratch_dir("c23")
        cwd = os.getcwd()
        os.chdir(d)
        try:
            series = {
                "array": np.array([0.0, 1.5, 100 / 3, 2e-7]), "list": [1.0, 2.0], "day": np.arange(1440) / 7.0, "empty": np.array([]),
                "one": np.array([5.0]),
            }
            fnames = {
                None: None, "input.py": "output_file_input_py.csv", "/some/where/input_file_1.xlsx": "output_file_input_file_1_xlsx.csv",
                "../a.b.c.py": "output_file_a_b_c_py.csv", "noext": "output_file_noext.csv",
            }
            for (sname, s), (fname, fout), j, ofname in itertools.product(
                    series.items(), fnames.items(), (None, 0, 1, 12), (None, "out.csv", os.path.join(d, "sub", "o.csv"))):
                os.makedirs(os.path.join(d, "sub"), exist_ok=True)
                before = {x: os.path.getsize(x) for x in files_in(d, results)}
                for x in before:
                    if not x.endswith("__init__.py"):
                        os.remove(x)
                keep = np.array(s, dtype=float).copy()
                pp.export_series(s, j, fname, ofname)
                res.stats.executions += 1
                if not np.array_equal(keep, np.array(s, dtype=float)):
                    res.violate(f"export_series modifies the series {sname}")
                if ofname is not None:
                    want = os.path.join(d, ofname)
                elif fname is not None:
                    want = os.path.join(results, fout)
                elif j is not None:
                    want = os.path.join(results, f"output_file_{j}.csv")
                else:
                    want = None
                got = [x for x in files_in(d, results) if not x.endswith("__init__.py")]
                tag = f"export_series({sname}, {j}, {fname}, {ofname})"
                if got != ([want] if want else []):
                    res.violate(f"{tag} writes {got} instead of {want}")
                    continue
                if want:
                    with open(want) as fp:
                        lines = [x.rstrip("\n").split(",") for x in fp]
                    values = [float(x[1]) for x in lines[1:] if len(x) > 1]
                    if [x[0] for x in lines[1:] if len(x) > 1] != [str(i) for i in range(len(keep))] or values != keep.tolist():
                        res.violate(f"{tag}: the file does not contain the series")
                res.validated += 1
        finally:
            os.chdir(cwd)


def files_in(*dirs):
    out = []
    for d in dirs:
        for root, _, names in os.walk(d):
            if "__pycache__" in root:
                continue
            out += [os.path.join(root, n) for n in names]
    return sorted(out)


def formatting_case(case, res):
    """Profile_formatting on every list of up to 3 profiles of a small set"""
    import ramp.post_process.post_process as pp

    base = {
        "zero": np.zeros(1440), "ramp": np.arange(1440) / 3.0, "peak": np.where(np.arange(1440) % 7 == 0, 1234.5, 0.0),
        "ends": np.array([9.0] + [0.0] * 1438 + [4.0]),
    }
    for k in (1, 2, 3):
        for names in itertools.product(base, repeat=k):
            for form in ("list", "array"):
                profiles = [base[n].copy() for n in names]
                given = profiles if form == "list" else np.array(profiles)
                avg, kw, series = pp.Profile_formatting(given)
                res.stats.executions += 1
                tag = f"Profile_formatting({names} as {form})"
                want = [sum(float(base[n][t]) for n in names) / k for t in range(1440)]
                if not all(same(float(a), b) for a, b in zip(avg, want)) or len(avg) != 1440:
                    res.violate(f"{tag}: the average is wrong")
                elif len(kw) != k or any(not all(same(float(a), float(b) / 1000) for a, b in zip(x, base[n])) for x, n in zip(kw, names)):
                    res.violate(f"{tag}: the profiles in kW are wrong")
                elif series.tolist() != [float(v) for n in names for v in base[n]]:
                    res.violate(f"{tag}: the series is not the succession of the days")
                elif any(not np.array_equal(base[n], g) for n, g in zip(names, given)):
                    res.violate(f"{tag} modifies the profiles")
                else:
                    res.validated += 1


def usecase_case(case, res):
    """the Plot returned by a usecase with several cases is exported and read again"""
    C = core()
    Plot = plot_class()
    d = boot.scratch_dir("c23")
    for start, end in (("2020-02-28", "2020-02-29"), ("2020-12-31", "2021-01-01"), ("2021-03-01", "2021-03-01")):
        for labels in ([1], [1, 2], ["a", "b"]):
            u = C.User("u", 2)
            u.add_appliance(number=1, power=3.3, func_time=60, window_1=[10, 100], fixed="yes", func_cycle=5, name="a")
            u.add_appliance(number=2, power=7, func_time=1440, window_1=[0, 1440], flat="yes", name="b")
            uc = C.UseCase(users=[u], date_start=start, date_end=end, random_seed=3)
            uc.initialize()
            p = uc.generate_daily_load_profiles(cases=labels)
            res.stats.executions += 1
            ndays = (pd.Timestamp(end) - pd.Timestamp(start)).days + 1
            off = int((pd.Timestamp(start) - T0) / pd.Timedelta(minutes=1))
            r = Ref(range(off, off + 1440 * ndays), [f"case {x}" for x in labels], p.df.values.tolist())
            tag = f"{start}..{end} cases={labels}"
            if frame_diff(p.df, r):
                res.violate(f"{tag}: {frame_diff(p.df, r)}")
                continue
            path = os.path.join(d, "u.csv")
            p.to_csv(path)
            if frame_diff(Plot.from_file(path, index=uc.datetimeindex).df, r):
                res.violate(f"{tag}: read again: {frame_diff(Plot.from_file(path, index=uc.datetimeindex).df, r)}")
            for freq, minutes, rule, conv in (("1h", 60, "sum", 60), ("1d", 1440, "sum", 1000), ("15min", 15, "mean", 1), ("1d", 1440, "max", 1)):
                got = p.resample(freq, rule, conversion=conv).df
                n = 1440 * ndays // minutes
                want = Ref([off + i * minutes for i in range(n)], r.cols,
                           [[agg(rule, [r.rows[i * minutes + k][j] / conv for k in range(minutes)]) for j in range(len(labels))] for i in range(n)])
                df = frame_diff_tol(got, want)
                if df:
                    res.violate(f"{tag}: resample({freq}, {rule}, {conv}): {df}")
            if frame_diff(p.df, r):
                res.violate(f"{tag}: modified by resample")
            res.validated += 1


def frame_diff_tol(df, ref):
    got = df.copy()
    if got.shape == (len(ref.rows), len(ref.cols)) and np.allclose(got.values, np.array(ref.rows), rtol=1e-9, atol=1e-12):
        got = pd.DataFrame(np.array(ref.rows), index=got.index, columns=got.columns)
    return frame_diff(got, ref)
