"""C04 power drawn: number of copies x power of the day x thermal factor"""
from checks import laws, shipped
from checks.laws import Case
from mc.spec import App, IDLE

BOUNDS = dict(
    quick="constant and daily powers, 1-3 copies, thermal variability 0-50% at 2-4 cells, 1-2 events",
    thorough="constant and daily powers, 1-5 copies, thermal variability 0-50% at 2-8 cells, 1-3 events",
)
ASSUMPTIONS = [
    "draws are abstracted to the cells described in mc/rng.py: the law of the thermal factor is compared "
    "at that resolution"
]


def cases(tier):
    t = tier == "thorough"
    out = []
    for P in (0, 1, 0.5, 100, 1250.5, 1e6):
        for n in (1, 2, 3):
            for fixed in ("yes", "no"):
                for flat in ("no", "yes"):
                    out.append((
                        f"const-{P}-{n}-{fixed}-{flat}",
                        Case(App(power=P, number=n, fixed=fixed, flat=flat, func_time=2, func_cycle=2,
                                 window_1=(5, 8)), cells=2 * (2 * n - 1)),
                    ))
    series = [float((7 * d) % 31 + (d % 3) * 0.25) for d in range(366)]
    for day in (0, 1, 2, 29, 30, 59, 364, 365):
        for flat in ("no", "yes"):
            for thermal in (0, 0.25):
                out.append((
                    f"series-{day}-{flat}-{thermal}",
                    Case(App(power=series, number=2, fixed="yes", flat=flat, func_time=2, func_cycle=2,
                             window_1=(1435, 1439), thermal_p_var=thermal), cells=4, day=day),
                ))
    for v in (0.1, 0.25, 0.5):
        for n in (1, 2):
            for fixed in ("yes", "no"):
                for cells in (6,) + ((12, 18) if t else ()):
                    out.append((
                        f"thermal-{v}-{n}-{fixed}-{cells}",
                        Case(App(power=100, number=n, fixed=fixed, func_time=3, func_cycle=2,
                                 window_1=(5, 9), thermal_p_var=v), cells=cells),
                    ))
    for n in (3, 4) + ((5,) if t else ()):  # one factor for the whole event, whatever the number of copies
        for fixed in ("yes", "no"):
            out.append((
                f"thermal-copies-{n}-{fixed}",
                Case(App(power=100, number=n, fixed=fixed, func_time=2, func_cycle=2, window_1=(5, 8), thermal_p_var=0.25),
                     cells=4 if fixed == "yes" else 2 * (2 * n - 1)),
            ))
    # windows which are randomised before: every event has its own factor
    out.append(("thermal-two-windows", Case(
        App(power=60, fixed="yes", func_time=4, func_cycle=2, num_windows=2, window_1=(5, 7),
            window_2=(30, 32), thermal_p_var=0.5), cells=4)))
    out.append(("thermal-flat", Case(
        App(power=60, flat="yes", func_time=3, window_1=(5, 9), thermal_p_var=0.5), cells=4)))
    for n in (2, 3):
        out.append((f"individuals-{n}", Case(
            App(power=60, fixed="yes", number=3, func_time=2, func_cycle=2, window_1=(5, 8)),
            cells=2, num_users=n)))
    return out


def run_case(case, res):
    laws.run(case, res)
