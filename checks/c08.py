"""C08 daily preference: drawn once per individual and day, shared by all the appliances"""
import numpy as np

from mc import spec
from mc.lib import check_law, make_user, single_profile
from mc.spec import App

BOUNDS = dict(
    quick="1-4 appliances, preferences 0-3 of 3, 1-3 individuals, all draws; 1-3 days in a row",
    thorough="1-5 appliances, preferences 0-3 of 3, 1-4 individuals, all draws; 1-3 days in a row",
)
ASSUMPTIONS = ["draws are abstracted to the cells described in mc/rng.py"]


def meal(i, pref, **kw):
    a = App(power=10 ** i, fixed="yes", func_time=1, window_1=(5 + 3 * i, 7 + 3 * i), pref_index=pref)
    a.update(kw)
    a["name"] = f"meal{i}"
    return a


def joint(apps, up, day_type=0, cells=2, peak=(2000, 2010), day=0):
    """law of the daily profile of one individual"""
    out = {}
    prefs = range(1, up + 1) if up else (0,)
    for pref in prefs:
        laws = []
        for a in apps:
            b = App(**a)
            if a.pref_index:
                if a.pref_index != pref:
                    b["number"] = 0
                b["pref_index"] = 0
            power = a.power[day] if isinstance(a.power, (list, tuple)) else None
            laws.append(spec.law(b, peak, day_type, power=power, cells=cells))
        for k, p in spec.convolve(laws).items():
            out[k] = out.get(k, 0) + p / len(prefs)
    return {canon_key(k): sum(p for kk, p in out.items() if canon_key(kk) == canon_key(k)) for k in out}


def canon_key(k):
    return tuple((m, round(v, 2)) for m, v in k)


def cases(tier):
    t = tier == "thorough"
    out = []
    for prefs in ((1,), (2,), (0,), (1, 2), (1, 1), (0, 1), (1, 2, 3), (1, 1, 2), (3, 3, 0), (2, 0, 2),
                  (1, 2, 3, 0), (1, 2, 3, 3)) + (((1, 2, 3, 3, 0), (3, 3, 3, 3, 3)) if t else ()):
        for up in (1, 2, 3):
            if max(prefs) > up:
                continue
            for num in (1, 2, 3) + ((4,) if t else ()):
                if len(prefs) * num > (6 if not t else 10) and up > 1:
                    continue
                if (up * 2 ** len([p for p in prefs if p in (0, prefs[0])])) ** num > (60000 if t else 6000):
                    continue
                out.append((f"prefs{prefs}-{up}-n{num}", (prefs, up, num)))
    for occ in (0.5,):
        out.append((f"occasional-{occ}", ((1, 1, 2), 2, 1, occ)))
    # several days of the same user: a new preference every day
    for days in ((0, 1), (1, 2), (5, 5), (3, 0), (364, 365), (0, 1, 2)):
        for prefs in ((1,), (1, 2), (2, 0)) + (((1, 1), (1, 2, 3)) if t else ()):
            for num in (1, 2):
                if len(days) * len(prefs) * num > (4 if not t else 8):
                    continue
                out.append((f"days{days}-prefs{prefs}-n{num}", (prefs, max(2, max(prefs)), num, 1, 2, 0, days)))
    for wd in (0, 1):
        for day in (0, 1):
            out.append((f"wd{wd}-day{day}", ((1, 2, 1), 2, 1, 1, wd, day)))
    return out


def run_case(case, res):
    prefs, up, num = case[:3]
    occ = case[3] if len(case) > 3 else 1
    wd = case[4] if len(case) > 4 else 2
    day = case[5] if len(case) > 5 else 0
    days = case[6] if len(case) > 6 else (0,)
    apps = [meal(i, p, occasional_use=occ, wd_we_type=wd if i == 0 else 2) for i, p in enumerate(prefs)]
    one = joint(apps, up, day)
    expected = spec.convolve([one] * num)
    expected = spec.convolve([{tuple((m + 1440 * i, v) for m, v in k): p for k, p in expected.items()} for i in range(len(days))])
    check_law(
        res,
        lambda: make_user(apps, num, up),
        lambda u: np.concatenate([u.generate_aggregated_load_profile(d, np.arange(2000, 2010), day) for d in days]),
        {canon_key(k): p for k, p in expected.items()},
        res.case,
        cells=2,
        cells01=2 if occ == 0.5 else 1,
        canon=spec.canon_sum,
    )
