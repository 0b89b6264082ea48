"""C20 equality of appliances and users is exact"""
import itertools
import os
import warnings

import pandas as pd

from mc import boot
from mc.lib import core
from checks.c17 import ALT, BASES, DEFAULTS, PARAMS, add, variants
from checks.c19 import FEW, WAYS, windows_declared

BOUNDS = dict(
    quick="6 base appliances: every two definitions among the base and every alternative value of every parameter (34 parameters), every pair "
    "of parameters against the base; series of 1 to 400 values differing by length, at each of their positions or by the order of two of their values; 4 stages of the life of "
    "an appliance x 4; every pair among 60 users",
    thorough="the same with every two definitions among all single and pairwise alternatives of 2 base appliances",
)
ASSUMPTIONS = ["a constant power and a series which repeats it are not compared", "appliances are compared with appliances, users with users"]
CASE_TIMEOUT = 850


def cases(tier):
    out = [(f"matrix-{b}-{i}", ("matrix", b, i)) for b in BASES for i in range(4)]
    out += [(f"pairs-{b}-{i}", ("pairs", b, i)) for b in BASES for i in range(3)]
    if tier != "quick":
        out += [(f"all-{b}-{i}", ("all", b, i)) for b in ("plain", "duty") for i in range(12)]
    out += [(f"series-{i}", ("series", i)) for i in range(6)]
    out += [(f"stages-{b}-{i}", ("stages", b, i)) for b in BASES for i in range(3)]
    out += [(f"membership-{b}", ("membership", b)) for b in BASES]
    out += [("users", ("users",)), ("same-users", ("same_users",))]
    return out


def run_case(case, res):
    warnings.simplefilter("ignore")
    globals()[case[0] + "_case"](case, res)


def make(d, user=None, stage="new"):
    C = core()
    u = user or C.User("u", 1, 3)
    d = dict(d)
    name = d.pop("name", "appliance")
    app = add(u, d, name)
    return app


def key(d):
    """the saved parameters"""
    r = dict(DEFAULTS, name="appliance", **{})
    r.update(d)
    if r["fixed_cycle"] == 1:
        if "cw11" not in d:
            r["cw11"] = r["window_1"]
        if "cw12" not in d:
            r["cw12"] = r["window_2"]
    return tuple(sorted((k, tuple(v) if isinstance(v, list) else v) for k, v in r.items()))


def constant(d):
    return isinstance(d["power"], list) and len(set(d["power"])) == 1


def check(res, label, a, b, want, swap=True):
    for x, y, order in ((a, b, ""), (b, a, " (swapped)"))[: 2 if swap else 1]:
        res.stats.executions += 1
        try:
            got = x == y
        except Exception as e:
            res.violate(f"{label}{order}: the comparison raises {type(e).__name__}: {str(e)[:100]}")
            return False
        if bool(got) != want:
            res.violate(f"{label}{order}: the appliances are {'equal' if got else 'different'}")
            return False
        if order == "" and swap and (x != y) == bool(got):
            res.violate(f"{label}{order}: == and != agree")
            return False
    return True


def singles(base):
    out = [dict(BASES[base])]
    for k in PARAMS:
        for v in ALT[k]:
            if dict(DEFAULTS, **BASES[base]).get(k) != v:
                d = windows_declared(dict(BASES[base], **{k: v}))
                if d is not None and not constant(d):
                    out.append(d)
    return out


def show(d, e):
    return {k: (str(d.get(k))[:20], str(e.get(k))[:20]) for k in sorted(set(d) | set(e)) if d.get(k) != e.get(k)}


def compare_all(res, base, left, right, swap=True):
    la = [(d, make(d), key(d)) for d in left]
    ra = [(d, make(d), key(d)) for d in right]
    for (d, a, ka), (e, b, kb) in itertools.product(la, ra):
        res.stats.transitions += 1
        if not check(res, f"{base} appliances differing by {show(d, e)}", a, b, ka == kb, swap):
            if len(res.violations) > 2:
                return
        res.validated += 1
    res.stats.states += len(la) + len(ra)


def matrix_case(case, res):
    _, base, i = case
    defs = singles(base)
    compare_all(res, base, defs[i::4], defs, swap=False)
    res.sample = dict(base=base, definitions=len(defs))


def pairs_case(case, res):
    _, base, i = case
    defs = [d for d in variants(base, "quick") if not constant(d)][i::3]
    compare_all(res, base, defs[:1] + [BASES[base]], defs)
    # each one against itself, defined in another way
    for n, d in enumerate(defs[::6]):
        d = dict(d)
        d.setdefault("name", "appliance")
        for way in FEW:
            user = core().User("other", 5, 1)
            b = WAYS[way](user, d)
            if b is not None:
                if not check(res, f"the same {base} appliance defined with {way}: {show(BASES[base], d)}", make(d), b, True):
                    return


def all_case(case, res):
    _, base, i = case
    defs = [d for d in variants(base, "quick") if not constant(d)]
    compare_all(res, base, defs[i::12], defs[::3])


def series_case(case, res):
    """series which differ by their length or by one value"""
    i = case[1]
    base = [10.0 + (k * 37 % 101) for k in range(400)]

    def app(values):
        return make(dict(BASES["plain"], power=[float(v) for v in values]))

    a = app(base[:366])
    if not check(res, "the same series", a, app(base[:366]), True):
        return
    for k in range(i, 366, 6):
        for v in (base[k] + 1, base[k] + 1e-9, 0.0):
            s = list(base[:366])
            s[k] = v
            if not check(res, f"series differing at the position {k} ({base[k]} and {v})", a, app(s), False):
                return
            res.stats.states += 1
            res.stats.transitions += 1
    # the same values in another order
    for k in range(i, 366, 6):
        for j in ((k + 1) % 366, (7 * k + 5) % 366, 365 - k):
            s = list(base[:366])
            s[k], s[j] = s[j], s[k]
            if not check(res, f"series where the values {k} and {j} ({base[k]}, {base[j]}) are swapped", a, app(s), base[k] == base[j]):
                return
            res.stats.states += 1
            res.stats.transitions += 1
    if i == 0 and not check(res, "a series and its reverse", a, app(base[:366][::-1]), False):
        return
    for n in list(range(1 + i, 400, 6)) + [365, 367]:
        if n != 366 and not check(res, f"series of 366 and {n} values with the same beginning", a, app(base[:n]), False):
            return
        res.stats.states += 1
    for v in (0, 1, 10.0, 11.5, base[0]):
        if not check(res, f"a series and the constant {v}", a, make(dict(BASES["plain"], power=v)), False):
            return


def stages_case(case, res):
    """simulating does not change the equality of appliances"""
    _, base, part = case
    C = core()

    def staged(d, stage, n):
        u = C.User("u", 1, 3)
        app = make(d, u)
        if stage == "new":
            return app
        uc = C.UseCase(users=[u])
        uc.initialize(num_days=n, force=True)
        if stage == "initialised":
            return app
        uc.generate_daily_load_profiles()
        if stage == "late":
            late = make(dict(d, name=d.get("name", "appliance")), C.User("v", 1, 3))
            v = C.User("late", 1, 3)
            uc.add_user(v)
            late = make(d, v)
            return late
        return app

    stages = [("new", 0), ("initialised", 1), ("initialised", 367), ("initialised", 900), ("generated", 2), ("late", 3), ("late", 400)]
    changes = (None, ("power", 777), ("func_time", 29), ("random_var_w", 0.3), ("cw31", (1, 2)), ("name", "other"))
    for base in (base,):
        for change in changes[part::3]:
            d = dict(BASES[base])
            e = dict(d, **dict([change])) if change else d
            if (isinstance(d["power"], list) or isinstance(e["power"], list)):
                sts = [s for s in stages if s[1] < 366]
            else:
                sts = stages
            for s, t in itertools.product(sts, repeat=2):
                want = key(d) == key(e)
                if not check(res, f"{base} appliances {s} and {t}, change {change}", staged(d, *s), staged(e, *t), want):
                    return
                res.stats.transitions += 1
                res.stats.states += 1
            res.validated += 1


def membership_case(case, res):
    """equality decides which appliances are already there: different ones are all kept, in every order"""
    C = core()
    for base in (case[1],):
        defs = singles(base)
        for n in range(0, len(defs), 10):
            part = defs[n: n + 10]
            for order in (part, part[::-1]):
                u = C.User("u", 1, 3)
                apps = [make(d, u) for d in order]
                res.stats.executions += 1
                if [id(a) for a in u.App_list] != [id(a) for a in apps]:
                    res.violate(f"{base}: {len(u.App_list)} appliances are kept out of {len(apps)} different ones")
                    return
                # again, in another user: equal to these ones only
                v = C.User("v", 2, 1)
                again = [make(d, v) for d in order]
                for i, a in enumerate(again):
                    if u.App_list.index(a) != i or u.App_list.count(a) != 1:
                        res.violate(f"{base}: appliance {i} is found at {u.App_list.index(a)}, {u.App_list.count(a)} times")
                        return
                    res.stats.transitions += 1
                res.stats.states += len(apps)


# ------------------------------------------------------------------------------------- users
def user_defs():
    p, d = dict(BASES["plain"]), dict(BASES["duty"])
    q = dict(p, func_time=31)
    lists = [[], [p], [d], [p, d], [d, p], [p, q], [q], [p, d, q]]
    out = []
    for name, n, pref in itertools.product(("u", "v"), (1, 2), (0, 3)):
        for apps in lists:
            out.append((name, n, pref, apps))
    return out


def make_user(t):
    name, n, pref, apps = t
    u = core().User(name, n, pref)
    for i, d in enumerate(apps):
        make(dict(d, name="duty" if "p_11" in d else f"a{d['func_time']}"), u)
    return u


def differing(s, t):
    out = [k for k, x, y in zip(("name", "num_users", "user_preference", "appliances"), s, t) if x != y]
    return out


def compare_users(res, s, t, u, v):
    diff = differing(s, t)
    for x, y in ((u, v), (v, u)):
        res.stats.executions += 1
        try:
            got = x == y
        except Exception as e:
            res.violate(f"comparing users raises {type(e).__name__}: {e}")
            return
        if bool(got) == bool(diff):
            what = diff[0] if len(diff) == 1 else "several attributes" if diff else "nothing"
            sig = f"users differing by {what}"
            if not any(v[0] == sig for v in res.violations):
                res.violate(f"users differing by {what} are {'equal' if got else 'different'} ({s} and {t})"[:300], signature=sig)


def users_case(case, res):
    defs = user_defs()
    users = [make_user(t) for t in defs]
    for s, u in zip(defs, users):
        for t, v in zip(defs, users):
            compare_users(res, s, t, u, v)
            res.stats.transitions += 1
    res.stats.states += len(defs)


def same_users_case(case, res):
    """users which are defined in the same way, before and after being simulated, saved and loaded"""
    C = core()
    for t in user_defs():
        u, v = make_user(t), make_user(t)
        compare_users(res, t, t, u, v)
        if not t[3]:
            continue
        uc = C.UseCase(users=[v])
        uc.initialize(num_days=2)
        compare_users(res, t, t, u, v)
        uc.generate_daily_load_profiles()
        compare_users(res, t, t, u, v)
        path = os.path.join(boot.scratch_dir("c20"), "f")
        uc.save(path)
        other = C.UseCase()
        other.load(path + ".xlsx")
        compare_users(res, t, t, u, other.users[0])
        res.stats.states += 1
        res.stats.transitions += 4
        res.validated += 4
