"""C07 days without use: week days, week ends, occasional use, no copies, no time of use"""
from checks import laws
from checks.laws import Case
from mc.spec import App

BOUNDS = dict(
    quick="every combination of wd_we_type, day type, pref_index, user_preference and occasional_use in "
    "{0, 1/10, 1/4, 1/3, 1/2, 2/3, 3/4, 1}",
    thorough="the same, with occasional_use = k/12 and k/7",
)
ASSUMPTIONS = [
    "draws are abstracted to the cells described in mc/rng.py; the draws aligned with occasional_use make "
    "the probability of use exact"
]


def cases(tier):
    t = tier == "thorough"
    out = []
    base = dict(power=10, fixed="yes", func_time=1, window_1=(5, 7))
    for flat in ("no", "yes"):
        for wd in (0, 1, 2):
            for day in (0, 1):
                for pref in (0, 1, 2, 3):
                    for up in (0, 1, 2, 3):
                        if pref > up and (flat == "yes" or wd != 2):
                            continue
                        out.append((
                            f"{flat}-wd{wd}-day{day}-pref{pref}-{up}",
                            Case(App(wd_we_type=wd, pref_index=pref, flat=flat, **base), day_type=day,
                                 user_preference=up),
                        ))
    occ = [(0, 4), (1, 10), (1, 4), (1, 3), (1, 2), (2, 3), (3, 4), (1, 1)]
    if t:
        occ += [(k, 12) for k in range(1, 12) if k not in (3, 4, 6, 8, 9)] + [(k, 7) for k in range(1, 7)]
    for k, n in occ:
        for wd, day in ((2, 0), (2, 1), (1, 1), (0, 0), (0, 1), (1, 0)):
            for pref, up in ((0, 0), (0, 3), (1, 1), (2, 3)):
                out.append((
                    f"occ{k}_{n}-wd{wd}-day{day}-pref{pref}-{up}",
                    Case(App(occasional_use=k / n, wd_we_type=wd, pref_index=pref, **base), day_type=day,
                         user_preference=up, cells01=n),
                ))
    for kw in (dict(number=0), dict(func_time=0), dict(number=0, flat="yes"), dict(func_time=0, flat="yes"),
               dict(number=0, fixed_cycle=1, p_11=5, t_11=1, p_12=3, t_12=1),
               dict(func_time=0, fixed_cycle=1, p_11=5, t_11=1, p_12=3, t_12=1), dict(power=0)):
        app = App(**base)
        app.update(kw)
        for day in (0, 1):
            out.append((f"none-{sorted(kw.items())}-{day}", Case(app, day_type=day)))
    # individuals decide separately
    for k, n in ((1, 2), (1, 4)):
        for num in (2, 3):
            out.append((
                f"individuals{num}-occ{k}_{n}",
                Case(App(occasional_use=k / n, power=10, fixed="yes", func_time=3, func_cycle=3,
                         window_1=(5, 9)), cells01=n, num_users=num),
            ))
    return out


def run_case(case, res):
    laws.run(case, res)
