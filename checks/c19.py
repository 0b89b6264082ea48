"""C19 all ways to define an appliance are equivalent and validated"""
import itertools
import os
import random
import warnings

import numpy as np
import pandas as pd

from mc import boot
from mc.lib import core
from checks import c18
from checks.c17 import ALT, BASES, DEFAULTS, PARAMS, differences, reference, variants

BOUNDS = dict(
    quick="6 base appliances x every alternative value of every parameter through 12 ways to define an appliance (and every number of "
    "positional arguments), every 5th pair of parameters through 5 ways; every order of declaration of cycles; every subset of windows x "
    "num_windows x func_time around their total through 5 ways; every sequence of up to 4 additions of 3 appliances; 14 types of "
    "objects which are not users or appliances in lists of up to 3",
    thorough="the same with every pair of parameters through 5 ways and every sequence of up to 5 additions",
)
ASSUMPTIONS = ["an appliance is added only to the user it was created for", "windows are declared before the specific cycles (documented order)"]
CASE_TIMEOUT = 850

# documented order of the arguments of Appliance
ARGS = ["number", "power", "num_windows", "func_time", "time_fraction_random_variability", "func_cycle", "fixed", "fixed_cycle",
        "continuous_duty_cycle", "occasional_use", "flat", "thermal_p_var", "pref_index", "wd_we_type", "name"]
# order of the arguments of the former user.Appliance(...)
OLD_ARGS = ["number", "power", "num_windows", "func_time", "time_fraction_random_variability", "func_cycle", "fixed", "fixed_cycle",
            "occasional_use", "flat", "thermal_P_var", "pref_index", "wd_we_type", "name"]
WINDOWS = ["window_1", "window_2", "random_var_w", "window_3"]
CYCLE = {i: [f"p_{i}1", f"t_{i}1", f"p_{i}2", f"t_{i}2", f"r_c{i}", f"cw{i}1", f"cw{i}2"] for i in (1, 2, 3)}
CWS = ["cw11", "cw12", "cw21", "cw22", "cw31", "cw32"]


def value(k, v, kind=list):
    if isinstance(v, tuple):
        return kind(v)
    if k == "power" and isinstance(v, list):
        return pd.DataFrame({"p": v})
    return v


def split(d, kind=list):
    args = {k: value(k, d[k], kind) for k in ARGS if k in d}
    win = {k: value(k, d[k], kind) for k in WINDOWS if k in d}
    cyc = {i: {k: value(k, d[k], kind) for k in CYCLE[i] if k in d} for i in CYCLE}
    return args, win, cyc


# ---------------------------------------------------------------------------------------- ways
def keywords(u, d, kind=list):
    args, win, cyc = split(d, kind)
    kw = dict(args, **win)
    for c in cyc.values():
        kw.update(c)
    return u.add_appliance(**kw)


def keywords_reversed(u, d):
    args, win, cyc = split(d, tuple)
    kw = dict(args, **win)
    for c in cyc.values():
        kw.update(c)
    return u.add_appliance(**dict(reversed(list(kw.items()))))


def positional(n):
    def f(u, d):
        args, win, cyc = split(d)
        full = {k: value(k, dict(DEFAULTS, **d)[k]) for k in ARGS}
        kw = {k: v for k, v in args.items() if k not in ARGS[:n]}
        kw.update(win)
        for c in cyc.values():
            kw.update(c)
        return u.add_appliance(*[full[k] for k in ARGS[:n]], **kw)
    return f


def objects(u, d, kind=list, order=(1, 2, 3), add=True, num=False, pos=False):
    """Appliance(...), windows(...), specific_cycle_i(...), add_appliance(appliance)"""
    args, win, cyc = split(d, kind)
    if pos:
        full = dict(DEFAULTS, **d)
        app = core().Appliance(u, *[value(k, full[k]) for k in ARGS])
        app.windows(*[value(k, d[k]) if k in d else {"random_var_w": 0}.get(k) for k in WINDOWS])
    else:
        app = core().Appliance(u, **args)
        app.windows(**win)
    for i in order:
        if cyc[i]:
            if num:
                app.specific_cycle(i, **cyc[i])
            elif pos:
                defaults = [0, 0, 0, 0, 0, None, None]
                getattr(app, f"specific_cycle_{i}")(*[value(k, d[k]) if k in d else x for k, x in zip(CYCLE[i], defaults)])
            else:
                getattr(app, f"specific_cycle_{i}")(**cyc[i])
    if add:
        u.add_appliance(app)
    return app


def legacy(u, d, pos=False, behaviour=True, order=(1, 2, 3)):
    """user.Appliance(...), windows(...), specific_cycle_i(P, t, P, t, r), cycle_behaviour(...)"""
    if d.get("continuous_duty_cycle", 1) != 1:
        return None
    args, win, cyc = split(d)
    if "thermal_p_var" in args:
        args["thermal_P_var"] = args.pop("thermal_p_var")
    if pos:
        defaults = dict(DEFAULTS, thermal_P_var=0)
        app = u.Appliance(*[args.get(k, defaults.get(k)) for k in OLD_ARGS])
    else:
        app = u.Appliance(**args)
    app.windows(**win)
    given = [c for c in CWS if c in d]
    for i in order:
        kw = {k: v for k, v in cyc[i].items() if not (behaviour and given) or k not in CWS}
        if kw:
            if pos:
                getattr(app, f"specific_cycle_{i}")(*[kw.get(k, 0) for k in CYCLE[i][:5]])
            else:
                getattr(app, f"specific_cycle_{i}")(**kw)
    if behaviour and given:
        ref = reference(d, d["name"])
        if pos:
            app.cycle_behaviour(*[list(ref[k]) for k in CWS])
        else:
            app.cycle_behaviour(**{k: list(ref[k]) for k in CWS if k in d or ref[k] != (0, 0)})
    if pos and not behaviour and given:
        for k in given:
            app.specific_cycle(int(k[2]), **cyc[int(k[2])])
    return app


def from_series(u, d):
    """power as a JSON text"""
    import json

    args, win, cyc = split(d)
    if isinstance(d.get("power"), list):
        args["power"] = json.dumps(d["power"])
    kw = dict(args, **win)
    for c in cyc.values():
        kw.update(c)
    return u.add_appliance(**kw)


def from_file(u, d, sep=None):
    """a row of an input file"""
    import json

    p = dict(d)
    if isinstance(p.get("power"), list):
        p["power"] = json.dumps(p["power"])
    p.setdefault("number", 1)
    for k in ("number", "power", "num_windows", "func_time", "func_cycle"):
        p.setdefault(k, DEFAULTS[k])
    path = c18.write([dict(c18.cells_of(p), user_name=u.user_name, num_users=u.num_users, user_preference=u.user_preference)], name="row")
    uc = core().UseCase()
    uc.load(path)
    os.remove(path)
    v = uc.users[0]
    app = v.App_list[0]
    app.user = u
    u.App_list.append(app)
    return app


WAYS = {
    "keywords": keywords,
    "keywords, reversed": keywords_reversed,
    "keywords, arrays": lambda u, d: keywords(u, d, lambda t: np.array(t)),
    "keywords, 32 bits arrays": lambda u, d: keywords(u, d, lambda t: np.array(t, dtype=np.intc)),
    "Appliance object": objects,
    "Appliance object, positional": lambda u, d: objects(u, d, pos=True),
    "Appliance object, not added explicitly": lambda u, d: objects(u, d, add=False, kind=tuple),
    "specific_cycle(i)": lambda u, d: objects(u, d, num=True, order=(3, 1, 2)),
    "legacy": legacy,
    "legacy, positional": lambda u, d: legacy(u, d, pos=True),
    "legacy, windows in cycles": lambda u, d: legacy(u, d, behaviour=False, order=(2, 3, 1)),
    "JSON text": from_series,
    "file": from_file,
}
FEW = ("keywords", "Appliance object", "legacy", "specific_cycle(i)", "file")


def cases(tier):
    out = [(f"ways-{b}-{w}", ("ways", b, w, tier)) for b in BASES for w in range(len(WAYS))]
    out += [(f"positional-{b}", ("positional", b)) for b in BASES]
    out += [(f"orders-{b}", ("orders", b)) for b in ("duty", "oneshot", "plain")]
    out += [(f"windows-{n}-{m}", ("windows", n, m)) for n in (1, 2, 3) for m in range(8)]
    out += [(f"adding-{i}", ("adding", i, tier)) for i in range(len(ADD))]
    out += [("types", ("types",)), ("names", ("names",)), ("arguments", ("arguments",))]
    return out


def run_case(case, res):
    warnings.simplefilter("ignore")
    globals()[case[0] + "_case"](case, res)


def fresh():
    return core().User("some user", 2, 3)


def probe(app, seed=5):
    """profile of one day"""
    random.seed(seed)
    app.user.rand_daily_pref = app.pref_index
    try:
        app.generate_load_profile(1, np.arange(1000, 1010), app.wd_we_type % 2, power=app.power[1])
    except ValueError as e:
        return str(e)[:20]
    return app.daily_use.copy()


def same(a, b):
    if isinstance(a, str) or isinstance(b, str):
        return isinstance(a, str) and isinstance(b, str)
    return np.array_equal(a, b)


def verify(res, label, way, d, expected=None):
    """define d with a way, compare it with its parameters and with the definition with keywords"""
    u = fresh()
    res.stats.executions += 1
    try:
        app = way(u, d)
    except Exception as e:
        res.violate(f"{label}: {type(e).__name__}: {str(e)[:120]} is raised")
        return None
    if app is None and not u.App_list:
        return None
    ref = reference(d, d["name"])
    diff = differences(app, ref)
    if diff:
        res.violate(f"{label}: {'; '.join(diff[:3])}")
    elif len(u.App_list) != 1 or u.App_list[0] is not app:
        res.violate(f"{label}: the appliances of the user are {[a.name for a in u.App_list]}")
    elif app.user is not u:
        res.violate(f"{label}: the appliance does not belong to its user")
    elif expected is not None:
        a, prof, mx = expected
        if not (app == a) or not (a == app):
            res.violate(f"{label}: the appliance is not equal to the one defined with keywords")
        elif not np.array_equal(app.maximum_profile, mx):
            res.violate(f"{label}: another maximum profile than the appliance defined with keywords")
        elif not same(probe(app), prof):
            res.violate(f"{label}: another profile than the appliance defined with keywords")
    else:
        return app
    res.stats.states += 1
    res.validated += 1
    return app


def expected_of(res, label, d):
    app = verify(res, label + ", keywords", keywords, d)
    if app is None or res.bad:
        return None
    return app, probe(app), app.maximum_profile


def ways_case(case, res):
    _, base, w, tier = case
    name = list(WAYS)[w]
    n = 1 + sum(1 for d in variants(base, "quick"))
    singles = [BASES[base]]
    for k in PARAMS:
        for v in ALT[k]:
            if dict(DEFAULTS, **BASES[base]).get(k) != v and DEFAULTS.get(k) != v:
                singles.append(dict(BASES[base], **{k: v}))
    todo = [windows_declared(d) for d in singles]
    if name in FEW:
        pairs = variants(base, "quick")[1:]
        todo += pairs if tier != "quick" else pairs[FEW.index(name)::5]
    done = 0
    for d in todo:
        if d is None:
            continue
        d = dict(d)
        d.setdefault("name", "appliance")
        label = f"{base} {change(base, d)}, {name}"
        e = expected_of(res, label, d)
        if e is None:
            return
        verify(res, label, WAYS[name], d, e)
        res.stats.transitions += 1
        done += 1
        if len(res.violations) > 3:
            return
    res.sample = dict(base=base, way=name, definitions=done, pairs=n)


def windows_declared(d):
    """declare the windows in order, or None when the definition is not valid"""
    from checks.c17 import valid

    d = dict(d)
    full = dict(DEFAULTS, **d)
    n = max([full["num_windows"]] + [int(k[-1]) for k in d if k.startswith("window_")])
    d["num_windows"] = n
    for i in range(2, n + 1):
        d.setdefault(f"window_{i}", (200 * i, 200 * i + 10))
    return d if valid(dict(DEFAULTS, **d)) else None


def change(base, d):
    return {k: (v if not isinstance(v, list) else "series") for k, v in d.items() if BASES[base].get(k) != v and k != "name"}


def positional_case(case, res):
    """every number of positional arguments"""
    base = case[1]
    todo = [BASES[base]] + [dict(BASES[base], **{k: ALT[k][0]}) for k in ARGS if k in ALT]
    for d in todo:
        d = windows_declared(d)
        if d is None:
            continue
        d.setdefault("name", "appliance")
        e = expected_of(res, f"{base}", d)
        if e is None:
            return
        for n in range(1, len(ARGS) + 1):
            verify(res, f"{base} {change(base, d)}, {n} positional arguments", positional(n), d, e)
            res.stats.transitions += 1
            if len(res.violations) > 3:
                return


def orders_case(case, res):
    """order of the declaration of the cycles"""
    base = case[1]
    for d in [BASES[base]] + [dict(BASES[base], fixed_cycle=n, name="x") for n in (0, 1, 2, 3)]:
        d = dict(d)
        d.setdefault("name", "appliance")
        e = expected_of(res, base, d)
        if e is None:
            return
        for order in itertools.permutations((1, 2, 3)):
            for num in (False, True):
                verify(res, f"{base}, cycles declared in the order {order}", lambda u, x: objects(u, x, order=order, num=num), d, e)
            verify(res, f"{base}, cycles declared in the order {order}, legacy", lambda u, x: legacy(u, x, order=order), d, e) \
                if d.get("continuous_duty_cycle", 1) == 1 else None
            verify(res, f"{base}, cycles declared in the order {order}, legacy",
                   lambda u, x: legacy(u, x, order=order, behaviour=False), d, e) if d.get("continuous_duty_cycle", 1) == 1 else None
            res.stats.transitions += 6


# ------------------------------------------------------------------------------------- validation
WIDTHS = {1: ((0, 30), (100, 101), (0, 1440)), 2: ((40, 50), (200, 260)), 3: ((1430, 1440), (500, 501))}


def windows_case(case, res):
    """num_windows x declared windows x func_time around the total of the declared ones"""
    _, n, mask = case
    C = core()
    declared = [i + 1 for i in range(3) if mask >> i & 1]
    for ws in itertools.product(*[WIDTHS[i] for i in declared]):
        win = {f"window_{i}": w for i, w in zip(declared, ws)}
        if not win:
            win = {"random_var_w": 0.1}
        used = dict(win)
        used.setdefault("window_1", (0, 1440))
        total = sum(used[f"window_{i}"][1] - used[f"window_{i}"][0] for i in range(1, n + 1) if f"window_{i}" in used)
        every = sum(w[1] - w[0] for k, w in used.items() if k.startswith("window"))
        missing = any(f"window_{i}" not in used for i in range(1, n + 1))
        for ft in sorted({1, max(1, total - 1), total, total + 1, every, every + 1}):
            ok = not missing and total >= ft
            d = dict(win, name="x", num_windows=n, func_time=ft, power=5)
            label = f"num_windows={n}, windows {win}, func_time={ft}"
            for way in FEW + ("adding an object", "legacy, positional"):
                u = fresh()
                other = u.add_appliance(name="other", power=1, func_time=5, window_1=[0, 10])
                before = list(u.App_list)
                res.stats.executions += 1
                if way == "file" and 1 not in declared:
                    continue
                if way.startswith("legacy"):
                    # the appliance is added when it is declared
                    before = None
                try:
                    if way == "adding an object":
                        app = C.Appliance(u, name="x", num_windows=n, func_time=ft, power=5)
                        app.windows(**{k: value(k, v) for k, v in win.items()})
                    else:
                        WAYS[way](u, d)
                    got = None
                except Exception as e:
                    got = type(e)
                res.stats.transitions += 1
                if ok and got is not None:
                    res.violate(f"{label}, {way}: {got.__name__} is raised for valid windows")
                elif ok and len(u.App_list) != 2:
                    res.violate(f"{label}, {way}: the user has {len(u.App_list)} appliances instead of 2")
                elif not ok and got is not C.InvalidWindow:
                    res.violate(f"{label}, {way}: {got.__name__ if got else 'nothing'} is raised instead of InvalidWindow")
                elif not ok and before is not None and [id(a) for a in u.App_list] != [id(a) for a in before]:
                    res.violate(f"{label}, {way}: the user keeps the refused appliance")
                elif not ok and before is not None:
                    # the user can be used further
                    u.add_appliance(name="x", power=5, func_time=1, window_1=[0, 30])
                    if len(u.App_list) != 2 or u.App_list[0] is not other:
                        res.violate(f"{label}, {way}: an appliance cannot be added after one was refused")
                if len(res.violations) > 3:
                    return
                res.validated += 1
            res.stats.states += 1


# ------------------------------------------------------------------------------------- adding
ADD = ("object-1", "object-2", "object-3", "all", "windows-1", "cycle-2", "keywords")


def adding_case(case, res):
    """sequences of additions: an appliance belongs once to its user, in the order of the first addition"""
    _, first, tier = case
    depth = 3 if tier == "quick" else 4
    for d in range(depth + 1):
        for rest in itertools.product(range(len(ADD)), repeat=d):
            hist = [ADD[i] for i in (first,) + rest]
            u = fresh()
            C = core()
            apps = {i: C.Appliance(u, name=f"x{i}", power=i, func_time=5, fixed_cycle=2) for i in (1, 2, 3)}
            want = []
            n = 0

            def put(a):
                if not any(a is b for b in want):
                    want.append(a)

            for op in hist:
                what, _, i = op.partition("-")
                res.stats.transitions += 1
                if what == "object":
                    u.add_appliance(apps[int(i)])
                    put(apps[int(i)])
                elif what == "all":
                    u.add_appliance(apps[1], apps[2], apps[3])
                    for j in (1, 2, 3):
                        put(apps[j])
                elif what == "windows":
                    apps[1].windows(window_1=[0, 100])
                    put(apps[1])
                elif what == "cycle":
                    apps[2].specific_cycle(1, p_11=20, t_11=3, p_12=4, t_12=1)
                elif what == "keywords":
                    put(u.add_appliance(name=f"kw{n}", power=4, func_time=5, window_1=[0, 100]))
                    n += 1
            res.stats.executions += 1
            res.stats.states += 1
            if [id(a) for a in u.App_list] != [id(a) for a in want]:
                res.violate(f"after {hist} the appliances are {[a.name for a in u.App_list]} instead of {[a.name for a in want]}")
                return
            if any(a.user is not u for a in u.App_list):
                res.violate(f"after {hist} an appliance belongs to another user")
                return
            uc = C.UseCase(users=[u])
            if [id(a) for a in uc.appliances] != [id(a) for a in want]:
                res.violate(f"after {hist} the usecase has the appliances {[a.name for a in uc.appliances]}")
                return
            res.validated += 1


def names_case(case, res):
    """appliances without a name get one, different from the names of the others"""
    C = core()
    for n in range(1, 7):
        for named in itertools.product((False, True), repeat=n):
            u = fresh()
            for i, x in enumerate(named):
                u.add_appliance(power=i % 2, func_time=5, window_1=[0, 100], **({"name": f"given{i}"} if x else {}))
            names = [a.name for a in u.App_list]
            res.stats.executions += 1
            res.stats.states += 1
            if len(names) != n or len(set(names)) != n or "" in names:
                res.violate(f"the appliances {named} (named or not) get the names {names}")
                return
            if [x.startswith("given") for x in names] != list(named):
                res.violate(f"the given names {named} are replaced: {names}")
                return
    # names may be shared by different appliances: each of them is kept, in the order of their additions
    kinds = [dict(power=10), dict(power=20), dict(power=10, number=2)]
    for n in range(1, 5):
        for seq in itertools.product(range(6), repeat=n):
            defs = [dict(kinds[i % 3], name="xy"[i // 3]) for i in seq]
            for way in range(3):
                u = fresh()
                apps = []
                for d in defs:
                    if way == 1:
                        a = C.Appliance(u, func_time=5, **d)
                        a.windows(window_1=[0, 100])
                    elif way == 2:
                        a = u.Appliance(func_time=5, **d)
                        a.windows(window_1=[0, 100])
                    else:
                        a = u.add_appliance(func_time=5, window_1=[0, 100], **d)
                    apps.append(a)
                res.stats.executions += 1
                res.stats.states += 1
                want = [a for k, a in enumerate(apps) if seq[k] not in seq[:k]]
                # appliances which are equal may be kept or not
                got = u.App_list
                kept = [(a.name, float(a.power[0]), a.number) for k, a in enumerate(got) if not any(a is b for b in got[:k])]
                for d in defs:
                    if (d["name"], float(d["power"]), d.get("number", 1)) not in kept:
                        res.violate(f"the appliances {[(a.name, float(a.power[0]), a.number) for a in want]} are added (way {way}), {kept} are kept")
                        return
                if [id(a) for a in got if any(a is b for b in want)] != [id(a) for a in want]:
                    res.violate(f"the appliances {[(a.name, float(a.power[0]), a.number) for a in want]} are added (way {way}), {kept} are kept")
                    return
    u = fresh()
    a = C.Appliance(u, power=3, func_time=5)
    if u.App_list:
        res.violate("an appliance is added to its user before its windows are declared or it is added")
    a.windows(window_1=[0, 100])
    if u.App_list != [a] or a.name == "":
        res.violate("an appliance without a name is not added when its windows are declared")
    res.stats.transitions += 1


def arguments_case(case, res):
    """the objects given as arguments are not modified by a generation and may be shared"""
    C = core()
    for base in BASES:
        for kind in (list, np.array):
            d = dict(BASES[base], random_var_w=0.3, name="x", occasional_use=1)
            args, win, cyc = split(d, kind)
            kw = dict(args, **win)
            for c in cyc.values():
                kw.update(c)
            u = C.User("u", 2)
            a = u.add_appliance(**kw)
            b = u.add_appliance(**dict(kw, name="y"))
            uc = C.UseCase(users=[u], date_start="2024-01-01", date_end="2024-01-03")
            uc.generate_daily_load_profiles()
            res.stats.executions += 1
            for k, v in d.items():
                if isinstance(v, tuple) and tuple(kw[k]) != v:
                    res.violate(f"{base}: the argument {k} is modified: {tuple(kw[k])} instead of {v}")
            if isinstance(d["power"], list) and kw["power"].values[:, 0].tolist() != [float(x) for x in d["power"]]:
                res.violate(f"{base}: the argument power is modified")
            for x in (a, b):
                diff = differences(x, reference(dict(d, name=x.name), x.name))
                if diff:
                    res.violate(f"{base}: after a generation {'; '.join(diff[:2])}")
            res.stats.states += 1
            res.stats.transitions += 3
    # parameters of the appliances of a class do not leak into the next one
    u = fresh()
    a = u.add_appliance(name="a", power=1, func_time=5, window_1=[0, 100], p_11=3, t_11=2, cw11=[3, 4], cw22=[5, 6])
    a.cw31[0] = 7
    a.window_2[1] = 8
    b = u.add_appliance(name="b", power=1, func_time=5, window_1=[0, 100])
    c = u.Appliance(name="c", power=1, func_time=5)
    c.windows(window_1=[0, 100])
    c.cycle_behaviour()
    c.cw11[1] = 9
    e = u.Appliance(name="e", power=1, func_time=5)
    e.windows(window_1=[0, 100])
    for x in (b, e):
        diff = differences(x, reference(dict(name=x.name, power=1, func_time=5, window_1=(0, 100)), x.name))
        if diff:
            res.violate(f"parameters of an appliance are shared with another one: {diff}")
    res.validated += 12


def types_case(case, res):
    """objects which are not users or appliances are refused"""
    C = core()
    u = C.User("u")
    app = u.add_appliance(name="a", power=1, func_time=5, window_1=[0, 100])

    class Fake:
        user_name, num_users, user_preference, App_list, usecase = "fake", 1, 0, [], None
        name = "fake"

    def bad(x):
        return [None, 3, 2.5, "u", "a", app if x == "user" else u, Fake(), Fake, C.User if x == "user" else C.Appliance, {"user_name": "u"},
                pd.DataFrame({"a": [1]}), (u,) if x == "user" else (app,), object(), True, C.UseCase()]

    goods = [C.User("g1"), C.User("g2")]
    for b in bad("user"):
        forms = [b, [b], [goods[0], b], [b, goods[0]], [goods[0], b, goods[1]], [goods[0], [b]], [[goods[0]], [goods[1], b]]]
        for f in forms:
            for way in ("add_user", "constructor"):
                uc = C.UseCase()
                res.stats.executions += 1
                res.stats.transitions += 1
                if way == "constructor" and f is None:
                    continue
                try:
                    if way == "add_user":
                        uc.add_user(f)
                    else:
                        C.UseCase(users=f)
                    got = None
                except C.InvalidType:
                    got = "InvalidType"
                except Exception as e:
                    got = type(e).__name__
                if got != "InvalidType":
                    res.violate(f"{way}({str(f)[:80]}) raises {got} instead of InvalidType")
                if any(not isinstance(x, C.User) for x in uc.users):
                    res.violate(f"{way}({str(f)[:80]}) adds {str(uc.users)[:80]}")
    for lists in ([goods[0]], [goods[0], goods[1]], [[goods[0]], goods[1]], [[goods[0], [goods[1]]]]):
        uc = C.UseCase()
        uc.add_user(lists)
        flat = [g for g in goods if str(id(g)) in str(ids(lists))]
        if [id(x) for x in uc.users] != [id(g) for g in flat] or any(x.usecase is not uc for x in uc.users):
            res.violate(f"add_user of {len(flat)} users in lists adds {len(uc.users)} users")
        res.stats.states += 1
    for b in bad("appliance"):
        v = C.User("v")
        x, y = [C.Appliance(v, name=n, power=1, func_time=5) for n in "xy"]
        for f in ([x, b], [x, b, y], [x, y, b], [b]):
            if f == [b] and not isinstance(b, C.User):
                continue
            res.stats.executions += 1
            try:
                if f[0] is b:
                    v._add_appliance_instance(f)
                else:
                    v.add_appliance(*f)
                got = None
            except TypeError:
                got = "TypeError"
            except Exception as e:
                got = type(e).__name__
            if got != "TypeError":
                res.violate(f"add_appliance of {str(b)[:60]} among appliances raises {got} instead of TypeError")
            if any(not isinstance(q, C.Appliance) for q in v.App_list):
                res.violate(f"add_appliance of {str(b)[:60]} among appliances adds it")
    for p in ([1, 2], (3,), None, {"a": 1}, np.ones(366), b"3"):
        v = C.User("v")
        res.stats.executions += 1
        try:
            v.add_appliance(name="x", power=p, func_time=5, window_1=[0, 100])
            res.violate(f"an appliance with power={str(p)[:40]} is accepted")
        except ValueError:
            if v.App_list:
                res.violate(f"an appliance with power={str(p)[:40]} is added")
        except Exception as e:
            res.violate(f"an appliance with power={str(p)[:40]} raises {type(e).__name__}")
    for n in (1, 2, 3):
        v = C.User("v")
        x = v.add_appliance(name="x", power=5, func_time=5, window_1=[0, 100])
        x.specific_cycle(n, **{f"p_{n}1": 7, f"t_{n}1": 3, f"cw{n}2": [4, 5]})
        d = differences(x, reference({"power": 5, "func_time": 5, "window_1": (0, 100), f"p_{n}1": 7, f"t_{n}1": 3, f"cw{n}2": (4, 5)}, "x"))
        if d:
            res.violate(f"specific_cycle({n}): {d}")


def ids(x):
    return [ids(y) for y in x] if isinstance(x, list) else id(x)
