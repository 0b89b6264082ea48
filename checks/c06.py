"""C06 duty cycles: pattern, choice of the cycle by the windows, one-shot cycles, reversal"""
from checks import laws
from checks.laws import Case
from mc.spec import App

BOUNDS = dict(
    quick="1-3 (4) duty cycles of up to 4+4 minutes, with time and power variability, cycle windows at every "
    "distance of the event, continuous and one-shot, 1-2 events",
    thorough="the same with cycles of up to 10+10 minutes and 1-3 events",
)
ASSUMPTIONS = [
    "draws are abstracted to the cells described in mc/rng.py",
    "an event whose minutes touch the windows of no cycle is drawn again: this is explored with time budgets "
    "which leave a single event per day",
]

C1 = dict(p_11=10, t_11=2, p_12=4, t_12=1)
C2 = dict(p_21=100, t_21=1, p_22=70, t_22=2)
C3 = dict(p_31=1000, t_31=2, p_32=500, t_32=2)


def length(r):
    """duration of a part which r makes take two values"""
    return {0: 3, 0.5: 2, 0.25: 4}[r]


def cases(tier):
    t = tier == "thorough"
    out = []

    def add(key, cells=2, peak=(2000, 2010), **kw):
        a = dict(power=1, fixed="yes", func_time=4, func_cycle=4, window_1=(20, 25))
        a.update(kw)
        out.append((key, Case(App(**a), cells=cells, peak=peak)))

    for cont in (1, 0):
        c = f"cont{cont}"
        # pattern repeated (or not) during the event
        for t1, t2 in ((1, 1), (2, 1), (1, 3), (4, 4), (2, 0), (0, 2), (3, 2), (6, 1)):
            add(f"pattern-{t1}-{t2}-{c}", fixed_cycle=1, p_11=10, t_11=t1, p_12=4, t_12=t2,
                continuous_duty_cycle=cont)
            if t:
                add(f"longpattern-{t1}-{t2}-{c}", fixed_cycle=1, p_11=10, t_11=t1, p_12=4, t_12=t2,
                    continuous_duty_cycle=cont, func_time=12, func_cycle=10, window_1=(20, 34))
        add(f"zero-power-{c}", fixed_cycle=1, p_11=10, t_11=2, p_12=0, t_12=1, continuous_duty_cycle=cont)
        # two events, one shot cycles make shorter events
        add(f"two-events-{c}", fixed_cycle=1, func_time=5, func_cycle=3, window_1=(20, 28),
            continuous_duty_cycle=cont, **C1)
        add(f"short-cycles-{c}", fixed_cycle=1, func_time=4, func_cycle=3, window_1=(20, 26), p_11=10, t_11=1,
            p_12=5, t_12=1, continuous_duty_cycle=cont)
        # variability of the durations
        for r, cells, t1, t2 in ((0.5, 2, 2, 2), (0.25, 2, 4, 4), (0.5, 4, 4, 2), (0.75, 6, 4, 2), (1.0, 4, 2, 1), (0.1, 2, 1, 1)):
            add(f"rc-{r}-{t1}-{t2}-{c}", cells, fixed_cycle=1, p_11=10, t_11=t1, p_12=4, t_12=t2, r_c1=r,
                continuous_duty_cycle=cont, func_time=8, func_cycle=8, window_1=(20, 29))
        # three cycles, reversed or not
        for r in (0, 0.5):
            add(f"three-{r}-{c}", 2, fixed_cycle=3, r_c1=r, continuous_duty_cycle=cont, window_1=(20, 25),
                p_11=10, t_11=2, p_12=4, t_12=2, p_21=100, t_21=2, p_22=70, t_22=2, p_31=1000, t_31=2,
                p_32=500, t_32=2, cw11=(20, 30), cw21=(100, 120), cw31=(200, 220))
        add(f"three-all-{c}", 2, fixed_cycle=3, num_windows=3, window_1=(20, 22), window_2=(30, 32),
            window_3=(40, 42), func_time=2, func_cycle=2, continuous_duty_cycle=cont, cw11=(20, 22),
            cw21=(30, 32), cw31=(40, 42), **C1, **C2, **C3)
        add(f"four-{c}", 2, fixed_cycle=4, continuous_duty_cycle=cont, cw11=(15, 22), cw21=(23, 25),
            cw31=(26, 30), **C1, **C2, **C3)
        # each cycle has its own variability, durations and powers
        for i in (1, 2, 3):
            for rs in ((0.5, 0, 0), (0, 0.5, 0), (0, 0, 0.5), (0.5, 0.25, 0), (0.25, 0, 0.5), (0, 0.25, 0.5)):
                for n in (2, 3):
                    if i > n or (n == 2 and rs[2]) or (n == 3 and sum(map(bool, rs)) > 1 and not t):
                        continue
                    add(f"own-rc-{n}-{i}-{rs}-{c}", 2, fixed_cycle=n, continuous_duty_cycle=cont, window_1=(20, 29),
                        func_time=8, func_cycle=8, r_c1=rs[0], r_c2=rs[1], r_c3=rs[2],
                        p_11=10, t_11=length(rs[0]), p_12=4, t_12=length(rs[0]),
                        p_21=100, t_21=length(rs[1]), p_22=70, t_22=length(rs[1]),
                        p_31=1000, t_31=length(rs[2]), p_32=500, t_32=length(rs[2]),
                        **{f"cw{k}1": ((15, 30) if k == i else (200 * k, 200 * k + 50)) for k in (1, 2, 3)})
    # power of the parts
    for v in (0.1, 0.5):
        add(f"thermal-{v}", 2, fixed_cycle=1, thermal_p_var=v, **C1)
        add(f"thermal2-{v}", 2, fixed_cycle=2, thermal_p_var=v, cw11=(10, 20), cw21=(21, 30), func_time=2,
            func_cycle=2, window_1=(19, 24), **C1, **C2)
    add("copies", 5, fixed_cycle=2, number=3, fixed="no", cw11=(10, 22), cw21=(23, 30), **C1, **C2)
    add("copies-peak", 5, (0, 1439), fixed_cycle=2, number=3, fixed="no", cw11=(10, 22), cw21=(23, 30), **C1,
        **C2)
    # which cycle: windows at every distance, the first one which is touched wins
    for d in range(-7, 8):
        add(f"cw-low-{d}", fixed_cycle=2, func_time=2, func_cycle=2, window_1=(20, 23), cw11=(10, 21 + d),
            cw21=(0, 100), **C1, **C2) if 21 + d != 10 else None
        add(f"cw-high-{d}", fixed_cycle=2, func_time=2, func_cycle=2, window_1=(20, 23), cw11=(21 + d, 40),
            cw21=(0, 100), **C1, **C2)
        add(f"cw12-{d}", fixed_cycle=2, func_time=2, func_cycle=2, window_1=(20, 23), cw11=(500, 600),
            cw12=(21 + d, 22 + d), cw21=(0, 100), **C1, **C2)
        add(f"cw22-{d}", fixed_cycle=3, func_time=2, func_cycle=2, window_1=(20, 23), cw11=(500, 600),
            cw21=(700, 800), cw22=(21 + d, 22 + d), cw31=(900, 910), cw32=(0, 100), **C1, **C2, **C3)
        # out of the windows: drawn again
        add(f"again-{d}", fixed_cycle=2, func_time=1, func_cycle=1, window_1=(20, 24), cw11=(21 + d, 22 + d),
            cw21=(23, 30), **C1, **C2)
    for j in (1, 2):
        add(f"default-cw-{j}", fixed_cycle=1, num_windows=2, window_1=(20, 23), window_2=(40, 43), func_time=2,
            func_cycle=2, **C1)
        break
    # the cycles of the first minute of the day
    add("midnight", fixed_cycle=2, func_time=2, func_cycle=2, window_1=(0, 3), cw11=(500, 600), cw21=(0, 10),
        **C1, **C2)
    # windows of the cycles out of reach: nothing is switched on
    add("unreachable", fixed_cycle=2, func_time=2, func_cycle=2, window_1=(0, 4), cw11=(500, 600),
        cw21=(700, 710), **C1, **C2)
    # random windows
    add("random-windows", fixed_cycle=1, func_time=3, func_cycle=3, window_1=(20, 24), random_var_w=0.25, **C1)
    return out


def run_case(case, res):
    laws.run(case, res)
