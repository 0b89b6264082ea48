"""C17 saving and loading a usecase preserves every definition"""
import itertools
import os
import random
import warnings

import numpy as np
import pandas as pd

from mc import boot
from mc.explore import run_once, Crash
from mc.lib import core

BOUNDS = dict(
    quick="6 base appliances x every alternative value of every parameter (34 parameters) and every pair of parameters (first "
    "alternative), saved and loaded in usecases of up to 120 appliances; every history of up to 3 save/load operations; every combination of 1 to 3 windows among 6, some of them empty; "
    "profiles compared under 4 schedules of draws and 2 seeds",
    thorough="6 base appliances x every alternative value of every parameter and of every pair of parameters, saved and loaded in "
    "usecases of up to 120 appliances; every history of up to 4 save/load operations; every combination of 1 to 3 windows among 6, some of them empty; profiles compared under 4 schedules of "
    "draws and 2 seeds",
)
ASSUMPTIONS = ["user names are unique and not empty, appliance names are not empty, series have the 366 values of the format",
               "numbers have at most 15 significant digits outside of series (limit of the .xlsx format)",
               "a series repeating one value is the same definition as that constant"]
CASE_TIMEOUT = 850


def wave(n=366, a=10.0):
    return [a + (i * 37 % 101) / 8 for i in range(n)]


ALT = dict(
    name=["Indoor Bulb", "été_ü-1", "12", "NA", "x'y\"z", "a" * 60],
    number=[0, 2, 30],
    power=[0, 0.001, 50.5, 0.1, 123456.789, 0.333333333333333, wave(), [7.0] + [9.5] * 364 + [7.0], [1 / 3 + i for i in range(366)],
           [0.0] * 365 + [1.0], [5] * 366],
    func_time=[1, 2, 0],
    time_fraction_random_variability=[0.1, 0.333333333, 1],
    func_cycle=[2, 3],
    fixed=["yes"],
    fixed_cycle=[1, 2, 3],
    continuous_duty_cycle=[0],
    occasional_use=[0.5, 0.33, 0],
    flat=["yes"],
    thermal_p_var=[0.2, 0.05, 0.123456789012],
    pref_index=[1, 2, 3],
    wd_we_type=[0, 1],
    random_var_w=[0.1, 0.35, 0.142857142857],
    window_1=[(0, 1440), (0, 100), (1300, 1440)],
    window_2=[(20, 30), (0, 5)],
    window_3=[(40, 60), (1430, 1440)],
    p_11=[20, 0.5], t_11=[3, 1], cw11=[(10, 20), (150, 150), (0, 1440)], p_12=[7, 1.0625], t_12=[2], cw12=[(30, 31), (200, 200), (0, 1440)], r_c1=[0.3, 0.333333],
    p_21=[21, 0.25], t_21=[4], cw21=[(11, 21), (250, 250), (0, 1440)], p_22=[8, 2.5], t_22=[5], cw22=[(32, 33), (300, 300), (0, 1440)], r_c2=[0.4],
    p_31=[22, 0.125], t_31=[6], cw31=[(12, 22), (350, 350), (0, 1440)], p_32=[9, 3.5], t_32=[7], cw32=[(34, 35), (400, 400), (0, 1440)], r_c3=[0.2],
)
DEFAULTS = dict(
    number=1, power=0, num_windows=1, func_time=0, time_fraction_random_variability=0, func_cycle=1, fixed="no", fixed_cycle=0,
    continuous_duty_cycle=1, occasional_use=1, flat="no", thermal_p_var=0, pref_index=0, wd_we_type=2, random_var_w=0,
    window_1=(0, 0), window_2=(0, 0), window_3=(0, 0),
    p_11=0, t_11=0, cw11=(0, 0), p_12=0, t_12=0, cw12=(0, 0), r_c1=0,
    p_21=0, t_21=0, cw21=(0, 0), p_22=0, t_22=0, cw22=(0, 0), r_c2=0,
    p_31=0, t_31=0, cw31=(0, 0), p_32=0, t_32=0, cw32=(0, 0), r_c3=0,
)
DUTY = dict(fixed_cycle=3, func_time=20, func_cycle=8, p_11=300, t_11=2, p_12=100, t_12=3, r_c1=0.1, p_21=200, t_21=1, p_22=50,
            t_22=2, r_c2=0.2, p_31=10, t_31=2, p_32=5, t_32=1, cw11=(100, 300), cw12=(310, 320), cw21=(301, 309), cw22=(321, 400),
            cw31=(401, 500), cw32=(501, 600), window_1=(100, 700))
BASES = {
    "plain": dict(power=100, func_time=30, func_cycle=2, window_1=(100, 500)),
    "windows": dict(power=40, number=3, func_time=30, func_cycle=2, num_windows=3, window_1=(100, 500), window_2=(600, 700),
                    window_3=(1000, 1440), random_var_w=0.2, time_fraction_random_variability=0.2),
    "two": dict(power=40, number=3, func_time=30, func_cycle=2, num_windows=2, window_1=(1000, 1440), window_2=(0, 100)),
    "duty": dict(DUTY, power=1),
    "oneshot": dict(power=9, fixed_cycle=1, continuous_duty_cycle=0, p_11=300, t_11=2, p_12=100, t_12=3, func_time=12, func_cycle=5,
                    window_1=(100, 300), num_windows=1, fixed="yes"),
    "series": dict(power=wave(a=500.0), func_time=30, func_cycle=2, window_1=(100, 500), fixed="yes", thermal_p_var=0.1),
}
PARAMS = list(ALT)


def valid(d):
    n = d["num_windows"]
    for i in range(1, n + 1):
        w = d.get(f"window_{i}")
        if w is None or w == (0, 0):
            return False
    if sum(d[f"window_{i}"][1] - d[f"window_{i}"][0] for i in range(1, n + 1)) < d["func_time"]:
        return False
    return True


def variants(base, tier):
    """definitions which differ from the base by one or two parameters"""
    out = [dict(BASES[base])]
    full = dict(DEFAULTS, **BASES[base])

    def add(change):
        d = dict(BASES[base], **change)
        # windows are declared in order
        n = max([full["num_windows"]] + [int(k[-1]) for k in change if k.startswith("window_")])
        d["num_windows"] = n
        for i in range(2, n + 1):
            d.setdefault(f"window_{i}", (200 * i, 200 * i + 10))
        if any(DEFAULTS.get(k) == v and k not in BASES[base] for k, v in change.items()):
            return
        if valid(dict(DEFAULTS, **d)):
            out.append(d)

    for k in PARAMS:
        for v in ALT[k]:
            if full.get(k) != v:
                add({k: v})
    for j, k in itertools.combinations(PARAMS, 2):
        vj = ALT[j] if tier != "quick" else ALT[j][:1]
        vk = ALT[k] if tier != "quick" else ALT[k][:1]
        for a, b in itertools.product(vj[:3], vk[:3]):
            if j == "power" and isinstance(a, list) and tier != "quick" and k not in ("number", "name", "fixed_cycle"):
                continue
            add({j: a, k: b})
    return out


def reference(d, name):
    """all parameters of a definition"""
    r = dict(DEFAULTS, **d)
    r.setdefault("name", name)
    if r["fixed_cycle"] == 1:
        if "cw11" not in d:
            r["cw11"] = r["window_1"]
        if "cw12" not in d:
            r["cw12"] = r["window_2"]
    return r


def add(user, d, name):
    kw = {}
    for k, v in d.items():
        if k.startswith("cw") or k.startswith("window_"):
            v = list(v)
        elif k == "power" and isinstance(v, list):
            v = pd.DataFrame({"p": v})
        kw[k] = v
    kw.setdefault("name", name)
    return user.add_appliance(**kw)


def differences(app, ref):
    out = []
    for k, v in ref.items():
        got = getattr(app, k)
        if k == "power":
            p = np.asarray(got, dtype=float)
            if isinstance(v, list):
                ok = len(p) >= 366 and np.array_equal(p[:366], np.array(v, dtype=float))
            else:
                ok = (p == v).all()
        elif isinstance(v, tuple):
            ok = len(got) == 2 and tuple(int(x) for x in got) == v
        else:
            ok = got == v and not (isinstance(v, str) ^ isinstance(got, str))
        if not ok:
            out.append(f"{k} is {str(got)[:60]} instead of {str(v)[:60]}")
    return out


def cases(tier):
    out = []
    for b in BASES:
        n = len(variants(b, tier))
        for i in range(0, n, 120):
            out.append((f"{b}-{i}", ("batch", b, i, tier)))
    out += [(f"hist-{h}", ("hist", h, tier)) for h in OPS]
    out += [(f"users-{i}", ("users", i)) for i in range(4)]
    out += [("files", ("files", None))]
    out += [(f"empty-{i}", ("empty", i)) for i in range(3)]
    out += [(f"profiles-{b}", ("profiles", b)) for b in BASES]
    return out


def run_case(case, res):
    warnings.simplefilter("ignore")
    globals()[case[0] + "_case"](case, res)


def compare_usecases(res, label, uc, refs):
    """refs: list of (name, num_users, preference, [reference])"""
    if [u.user_name for u in uc.users] != [r[0] for r in refs]:
        res.violate(f"{label}: the users are {[u.user_name for u in uc.users]} instead of {[r[0] for r in refs]}")
        return False
    for u, (name, n, pref, apps) in zip(uc.users, refs):
        if u.num_users != n or u.user_preference != pref:
            res.violate(f"{label}: user {name} has {u.num_users} users and preference {u.user_preference} instead of {n}, {pref}")
            return False
        if [a.name for a in u.App_list] != [a["name"] for a in apps]:
            res.violate(f"{label}: the appliances of {name} are {[a.name for a in u.App_list][:8]} instead of {[a['name'] for a in apps][:8]}")
            return False
        for a, r in zip(u.App_list, apps):
            d = differences(a, r)
            if d:
                res.violate(f"{label}: appliance {a.name} of {name}: {'; '.join(d[:3])}")
                return False
            if a.user is not u:
                res.violate(f"{label}: appliance {a.name} is not bound to its user")
                return False
    if len(uc.appliances) != sum(len(r[3]) for r in refs):
        res.violate(f"{label}: {len(uc.appliances)} appliances gathered in the usecase instead of {sum(len(r[3]) for r in refs)}")
        return False
    res.validated += sum(len(r[3]) for r in refs)
    return True


def same_profiles(res, label, make_a, make_b, seeds=(1, 2), schedules=("first", "mid", "last", "spread")):
    def gen(make):
        uc = make()
        uc.date_start = "2024-03-01"
        uc.initialize(num_days=2, force=True)
        return uc.generate_daily_load_profiles()

    for s in seeds:
        outs = []
        for make in (make_a, make_b):
            random.seed(s)
            try:
                outs.append(gen(make))
            except ValueError as e:
                outs.append(str(e)[:30])
        res.stats.executions += 2
        if isinstance(outs[0], str) or isinstance(outs[1], str):
            same = str(outs[0]) == str(outs[1])
        else:
            same = outs[0].shape == outs[1].shape and np.allclose(outs[0], outs[1], rtol=1e-13, atol=0)
        if not same:
            res.violate(f"{label}: the profiles generated with seed {s} are different after loading")
            return False
    for s in schedules:
        outs = []
        for make in (make_a, make_b):
            ctl, out = run_once(lambda: gen(make), default=s, cells=3, sparse=5, gauss_cells=20)
            if isinstance(out, Crash) and out.type != "ValueError":
                res.violate(f"{label}: {out!r}\n{out.tb}")
                return False
            outs.append(repr(out) if isinstance(out, Crash) else out)
        res.stats.executions += 2
        if isinstance(outs[0], str) or isinstance(outs[1], str):
            same = isinstance(outs[0], str) and isinstance(outs[1], str)
        else:
            same = np.array_equal(outs[0], outs[1])
        if not same:
            res.violate(f"{label}: the profiles generated under the schedule '{s}' are different after loading")
            return False
    return True


def batch_case(case, res):
    _, base, start, tier = case
    defs = variants(base, tier)[start: start + 120]
    C = core()
    users = []
    refs = []
    size = 12
    for i in range(0, len(defs), size):
        u = C.User(f"user {i}", 1 + i % 3, 3)
        rows = []
        for j, d in enumerate(defs[i: i + size]):
            name = f"a{i + j}"
            if "name" in d:
                name = d = dict(d, name=d["name"] + f"_{i + j}" if j else d["name"])
                name = d["name"]
            add(u, d, name)
            rows.append(reference(d, name))
        users.append(u)
        refs.append((f"user {i}", 1 + i % 3, 3, rows))
    uc = C.UseCase(users=users)
    label = f"{base} {start}"
    if not compare_usecases(res, label + ", as defined", uc, refs):
        return
    path = os.path.join(boot.scratch_dir("c17"), "file")
    uc.save(path)
    other = C.UseCase()
    other.load(path + ".xlsx")
    res.stats.states += len(defs)
    res.stats.transitions += 2 * len(defs)
    if not compare_usecases(res, label, other, refs):
        return
    for u, v in zip(uc.users, other.users):
        for a, b, ref in zip(u.App_list, v.App_list, refs[0][3] * 0 + [r for x in refs if x[0] == u.user_name for r in x[3]]):
            if not isinstance(ref["power"], list) or len(set(ref["power"])) > 1:
                if not (a == b) or not (b == a):
                    res.violate(f"{label}: the loaded appliance {a.name} is not equal to the saved one")
                    return
    one, two = uc.save(), other.save()
    if list(one.columns) != list(two.columns):
        res.violate(f"{label}: saving again gives other columns")
        return
    for c in one.columns:
        if one[c].tolist() != two[c].tolist():
            res.violate(f"{label}: saving again gives other values in the column {c}")
            return
    if not uc.export_to_dataframe().equals(one):
        res.violate(f"{label}: export_to_dataframe differs from save")
    # profiles: appliances whose events do not fit raise the same error
    for k in range(size):
        for u, v in zip(uc.users, other.users):
            if k >= len(u.App_list):
                continue
            outs = []
            for user in (u, v):
                random.seed(k)
                user.rand_daily_pref = user.App_list[k].pref_index
                try:
                    user.App_list[k].generate_load_profile(1, np.arange(3), 0, power=user.App_list[k].power[1])
                    outs.append(user.App_list[k].daily_use.copy())
                except ValueError as e:
                    outs.append(np.zeros(1))
            res.stats.executions += 2
            if not np.array_equal(outs[0], outs[1]):
                res.violate(f"{label}: the profiles of {u.App_list[k].name} generated with the same seed are different")
                return
    res.sample = dict(base=base, appliances=len(defs), columns=len(one.columns))


# ------------------------------------------------------------------------------------- histories
OPS = ("save-load", "save-load-into", "load-twice", "save-user", "frame", "initialize", "generate", "add-user", "add-appliance")


def small():
    C = core()
    u = C.User("first one", 2, 2)
    add(u, dict(BASES["plain"], number=2), "a1")
    add(u, dict(BASES["series"]), "a2")
    v = C.User("Second", 1, 0)
    add(v, dict(BASES["duty"]), "b1")
    refs = [("first one", 2, 2, [reference(dict(BASES["plain"], number=2), "a1"), reference(BASES["series"], "a2")]),
            ("Second", 1, 0, [reference(BASES["duty"], "b1")])]
    return C.UseCase(users=[u, v]), refs


def hist_case(case, res):
    _, first, tier = case
    depth = 2 if tier == "quick" else 3
    path = os.path.join(boot.scratch_dir("c17h"), "some file")  # the same file is written again and again
    for d in range(depth + 1):
        for rest in itertools.product(OPS, repeat=d):
            hist = (first,) + rest
            if sum(o == "load-twice" for o in hist) > 1:
                continue
            uc, refs = small()
            res.stats.executions += 1
            for n, op in enumerate(hist):
                uc, refs = apply(op, uc, refs, n, path)
                res.stats.transitions += 1
            res.stats.states += 1
            if not compare_usecases(res, f"{hist}", uc, refs):
                return
    res.sample = dict(first=first, histories=sum(len(OPS) ** d for d in range(depth + 1)))


def apply(op, uc, refs, n, path):
    C = core()
    if op == "save-load":
        uc.save(path)
        uc = C.UseCase()
        uc.load(path + ".xlsx")
    elif op == "save-load-into":
        uc.save(path)
        w = C.User(f"present {n}", 4, 1)
        add(w, BASES["two"], "w")
        uc = C.UseCase(users=[w], date_start="2024-01-01", date_end="2024-01-03")
        uc.load(path + ".xlsx")
        refs = [(f"present {n}", 4, 1, [reference(BASES["two"], "w")])] + refs
    elif op == "load-twice":
        # the same file loaded in another usecase in between
        uc.save(path)
        C.UseCase().load(path + ".xlsx")
        uc = C.UseCase()
        uc.load(path + ".xlsx")
    elif op == "save-user":
        u = uc.users[0]
        u.save(path)
        uc = C.UseCase()
        uc.load(path + ".xlsx")
        refs = refs[:1]
    elif op == "frame":
        uc.save()
        uc.export_to_dataframe()
        uc.users[-1].save()
        uc.users[0].App_list[0].export_to_dataframe()
    elif op == "initialize":
        uc.initialize(num_days=3, force=True)
    elif op == "generate":
        uc.initialize(num_days=1)
        uc.generate_daily_load_profiles()
    elif op == "add-user":
        w = C.User(f"new {n}", 3, 0)
        add(w, BASES["oneshot"], "w")
        uc.add_user(w)
        uc.collect_appliances_from_users()
        refs = refs + [(f"new {n}", 3, 0, [reference(BASES["oneshot"], "w")])]
    elif op == "add-appliance":
        d = dict(BASES["plain"], number=5 + n)
        add(uc.users[0], d, f"z{n}")
        uc.collect_appliances_from_users()
        r = refs[0]
        refs = [(r[0], r[1], r[2], r[3] + [reference(d, f"z{n}")])] + refs[1:]
    return uc, refs


def users_case(case, res):
    """numbers, preferences, names and order of users"""
    i = case[1]
    C = core()
    names = ["b", "a", "C c", "10", "9", "nan", "é", "True"]
    alphabets = [[(n, 1, 0) for n in names], [(n, k, 0) for k, n in enumerate(names)], [(n, 1, k % 4) for k, n in enumerate(names)],
                 [(n, 1000 - k, (3 * k) % 4) for k, n in enumerate(reversed(names))]]
    for perm in itertools.islice(itertools.permutations(alphabets[i][:5]), 0, None, 7):
        users, refs = [], []
        for name, n, pref in perm + tuple(alphabets[i][5:]):
            u = C.User(name, n, pref)
            add(u, BASES["plain"], "z")
            add(u, dict(BASES["plain"], number=2), "a")
            users.append(u)
            refs.append((name, n, pref, [reference(BASES["plain"], "z"), reference(dict(BASES["plain"], number=2), "a")]))
        uc = C.UseCase(users=users)
        path = os.path.join(boot.scratch_dir("c17u"), "f")
        uc.save(path)
        other = C.UseCase()
        other.load(path + ".xlsx")
        res.stats.executions += 1
        res.stats.states += len(users)
        res.stats.transitions += 2
        if not compare_usecases(res, f"users {[p[0] for p in perm]}", other, refs):
            return


EMPTY = [(0, 0), (300, 300), (100, 200), (1430, 1440), (1440, 1440), (0, 1)]


def empty_case(case, res):
    """every combination of windows among which some may be empty"""
    C = core()
    n = case[1] + 1
    combos = list(itertools.product(EMPTY, repeat=n))
    for at in range(0, len(combos), 10):
        u = C.User("u", 1)
        refs = []
        for k, ws in enumerate(combos[at: at + 10]):
            total = sum(b - a for a, b in ws)
            for cycle in (0, 1):
                d = dict(power=5, num_windows=n, func_time=min(total, 3), fixed_cycle=cycle)
                d.update({f"window_{i + 1}": w for i, w in enumerate(ws)})
                add(u, d, f"a{k}-{cycle}")
                refs.append(reference(d, f"a{k}-{cycle}"))
        refs = [("u", 1, 0, refs)]
        uc = C.UseCase(users=[u])
        if not compare_usecases(res, f"windows {combos[at: at + 10]}, as defined", uc, refs):
            return
        path = os.path.join(boot.scratch_dir("c17e"), "f")
        uc.save(path)
        other = C.UseCase()
        other.load(path + ".xlsx")
        res.stats.executions += 1
        res.stats.states += len(refs[0][3])
        res.stats.transitions += 2
        if not compare_usecases(res, f"windows {combos[at: at + 10]}", other, refs):
            return


def profiles_case(case, res):
    """the loaded usecase generates the same profiles"""
    C = core()
    u = C.User("u", 2, 2)
    add(u, BASES[case[1]], "a")
    add(u, dict(BASES[case[1]], number=4, pref_index=1, occasional_use=0.5), "b")
    uc = C.UseCase(users=[u])
    path = os.path.join(boot.scratch_dir("c17p"), "f")
    uc.save(path)
    other = C.UseCase()
    other.load(path + ".xlsx")
    if same_profiles(res, case[1], lambda: uc, lambda: other, seeds=range(1, 6), schedules=("mid", "last", "spread")):
        res.validated += 8


def files_case(case, res):
    """names of files, and no file when none is asked"""
    C = core()
    uc, refs = small()
    d = boot.scratch_dir("c17f")
    os.makedirs(os.path.join(d, "sub.dir"))
    here = os.getcwd()
    os.chdir(d)
    try:
        for name in ("plain", "with space", "dots.v1.2", os.path.join("sub.dir", "x"), os.path.join(d, "abs"), "x.xlsx"):
            out = uc.save(name)
            res.stats.executions += 1
            if out is not None or not os.path.exists(name + ".xlsx"):
                res.violate(f"save({name!r}) does not write {name}.xlsx")
                continue
            other = C.UseCase()
            other.load(name + ".xlsx")
            compare_usecases(res, f"file {name}", other, refs)
        before = sorted(os.listdir(d))
        uc.save()
        if sorted(os.listdir(d)) != before:
            res.violate("save() without a name writes a file")
    finally:
        os.chdir(here)
