"""C03 switch-on events: where they start, how long they last, how they share the windows"""
from checks import laws
from checks.laws import Case
from mc.spec import App

BOUNDS = dict(
    quick="every sequence of events for time budgets of 1-4 minutes in windows of up to 12 minutes, "
    "and of 20 minutes for long events",
    thorough="every sequence of events for time budgets of 1-5 minutes in windows of up to 20 minutes",
)
ASSUMPTIONS = ["draws are abstracted to the cells described in mc/rng.py"]


def cases(tier):
    t = tier == "thorough"
    out = []

    def add(key, app_kw, **opts):
        app = App(power=10, fixed="yes")
        app.update(app_kw)
        out.append((key, Case(app, cells=2, **opts)))

    grid = [
        (1, 1, 12), (2, 1, 8), (2, 2, 12), (3, 1, 5), (3, 2, 8), (3, 3, 12), (4, 2, 7), (4, 3, 9),
        (5, 3, 8), (6, 4, 10), (6, 3, 8), (20, 18, 25), (4, 4, 4), (2, 1, 2), (3, 1, 3),
    ]
    if t:
        grid += [(1, 1, 40), (2, 1, 14), (3, 1, 8), (4, 1, 5), (4, 2, 10), (5, 2, 8), (6, 3, 12),
                 (8, 4, 14), (30, 27, 40), (3, 2, 16), (4, 1, 6), (5, 1, 6)]
    for F, fc, n in grid:
        for start in (0, 700, 1440 - n):
            add(f"one-F{F}-fc{fc}-w{n}-{start}",
                dict(func_time=F, func_cycle=fc, window_1=(start, start + n)))
    multi = [
        ("two", ((10, 15), (20, 26))),
        ("adjacent", ((10, 14), (14, 18))),
        ("unordered", ((20, 24), (10, 13))),
        ("three", ((0, 3), (10, 13), (1436, 1440))),
        ("three-adjacent", ((10, 13), (13, 16), (16, 19))),
        ("overlap", ((10, 14), (12, 17))),
        ("inside", ((10, 18), (12, 14))),
        ("same", ((10, 14), (10, 14))),
        ("mixed", ((10, 15), (14, 16), (30, 32))),
        ("short", ((10, 12), (20, 24), (30, 31))),
    ]
    for key, ws in multi:
        kw = {f"window_{i + 1}": w for i, w in enumerate(ws)}
        kw["num_windows"] = len(ws)
        for F, fc in ((2, 1), (3, 2), (4, 3), (4, 2)) + (((3, 1), (5, 2), (6, 4)) if t else ()):
            if F <= sum(b - a for a, b in ws):
                add(f"{key}-F{F}-fc{fc}", dict(kw, func_time=F, func_cycle=fc))
    # float and zero func_cycle
    for fc in (0, 0.5, 1.5, 2.0):
        add(f"float-fc{fc}", dict(func_time=3, func_cycle=fc, window_1=(10, 16)))
    # several copies: the multiplicity of each event is drawn separately
    out.append(("copies", Case(App(power=10, number=2, func_time=3, func_cycle=2, window_1=(5, 9)), cells=6)))
    # two individuals: their events are independent
    add("individuals", dict(func_time=2, func_cycle=1, window_1=(10, 14)), num_users=2)
    return out


def run_case(case, res):
    laws.run(case, res)
