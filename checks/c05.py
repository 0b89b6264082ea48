"""C05 coincidence: law of the number of copies switched on together, in and out of the peak"""
import ast
import contextlib
import inspect
import textwrap

from checks import laws
from checks.laws import Case
from mc import spec
from mc.lib import core
from mc.spec import App

BOUNDS = dict(
    quick="1-8 copies (1-5 with 4 other calibrations); events of 1-3 minutes at every distance of the limits of the peak range",
    thorough="1-20 copies (1-8 with 6 other calibrations); events of 1-4 minutes at every distance of the limits of the peak range",
)
ASSUMPTIONS = [
    "draws are abstracted to the cells described in mc/rng.py (gaussian cells are weighted with the "
    "normal law)"
]


def odd(n):
    return 2 * n - 1


def cases(tier):
    t = tier == "thorough"
    out = []
    base = dict(power=1, func_cycle=1)
    for n in list(range(1, 9)) + ([10, 12, 15, 20] if t else []):
        for fixed in ("no", "yes"):
            for where, peak in (("peak", (0, 1439)), ("off", (2000, 2010))):
                out.append((
                    f"n{n}-{fixed}-{where}",
                    Case(App(number=n, fixed=fixed, func_time=1, window_1=(50, 52), **base), peak=peak,
                         cells=odd(n), gauss_cells=64),
                ))
    # an event in the peak as soon as one of its minutes is
    for L in (1, 2, 3) + ((4,) if t else ()):
        for plen in (1, 2, 4):
            for d in range(-L - 2, plen + 3):
                # deterministic event [start, start + L): window longer but fc = L and a single start
                app = App(number=2, power=7, func_time=L, func_cycle=L, window_1=(300 + d, 300 + d + L + 1))
                out.append((f"touch-L{L}-p{plen}-d{d}", Case(app, peak=(300, 300 + plen - 1), cells=3)))
    # a peak range which goes over midnight
    for peak in ((-20, 2), (-20, -1), (-20, 0), (-3, 1442), (1437, 1460), (1440, 1460), (1439, 1445), (-30, -10), (-5, 700)):
        for at in (0, 2, 700, 1437):
            for F, fc in ((1, 1), (3, 2)):
                w = min(at, 1440 - F - 1)
                out.append((f"midnight{peak}-{at}-{F}", Case(App(number=2, power=7, func_time=F, func_cycle=fc, fixed="no",
                                                                 window_1=(w, w + F + 1)), peak=peak, cells=3)))
    # every event has its own coincidence, some in the peak and others not
    for peak in ((10, 12), (11, 11), (13, 20), (0, 5), (9, 9), (16, 17), (14, 15)):
        out.append((
            f"split-{peak[0]}-{peak[1]}",
            Case(App(number=2, power=7, func_time=4, func_cycle=2, num_windows=2, window_1=(10, 13),
                     window_2=(14, 17)), peak=peak, cells=3),
        ))
        out.append((
            f"adj-{peak[0]}-{peak[1]}",
            Case(App(number=2, power=7, func_time=2, func_cycle=1, window_1=(10, 14)), peak=peak, cells=3),
        ))
    # the correction of the last event is done before the peak is compared
    for lo in range(9, 16):
        out.append((
            f"last-{lo}",
            Case(App(number=3, power=7, func_time=3, func_cycle=2, window_1=(10, 15)), peak=(lo, lo + 1),
                 cells=5),
        ))
    # duty cycles are multiplied as well
    for where, peak in (("peak", (0, 1439)), ("off", (2000, 2010))):
        out.append((
            f"duty-{where}",
            Case(App(number=3, power=7, fixed_cycle=1, p_11=10, t_11=1, p_12=4, t_12=1, func_time=3,
                     func_cycle=3, window_1=(10, 14)), peak=peak, cells=5),
        ))
    # other calibrations
    for mu, sd, op in CALIBRATIONS if t else CALIBRATIONS[:4]:
        for n in (1, 2, 3, 5) + ((4, 8) if t else ()):
            for where, peak in (("peak", (0, 1439)), ("off", (2000, 2010))):
                # limits of the cells at the multiples of 1 / n
                out.append((
                    f"calibration-{mu}-{sd}-{op}-n{n}-{where}",
                    ((mu, sd, op), Case(App(number=n, func_time=1, window_1=(50, 52), **base), peak=peak, cells=20 * n - round(20 * op),
                                        gauss_cells=64)),
                ))
    return out


# mu_peak, s_peak, op_factor
CALIBRATIONS = ((0.25, 0.5, 0.5), (0.5, 0.2, 0.25), (0.75, 0.1, 0.5), (0.4, 0.9, 0.75), (0.9, 0.05, 0.0), (0.1, 1.0, 0.95))


@contextlib.contextmanager
def calibrated(values):
    """the module of the calibration parameters is edited as its users are told to do"""
    core()
    import ramp.core.constants as constants

    fn = getattr(constants, "switch_on_parameters", None)
    done = set()
    if fn is not None:
        tree = ast.parse(textwrap.dedent(inspect.getsource(fn)))
        new = dict(zip(("mu_peak", "s_peak", "op_factor"), values))
        for node in ast.walk(tree):
            if isinstance(node, ast.Assign) and len(node.targets) == 1 and isinstance(node.targets[0], ast.Name) and node.targets[0].id in new:
                done.add(node.targets[0].id)
                node.value = ast.Constant(new[node.targets[0].id])
    if len(done) < 3:
        # the parameters are kept somewhere else
        yield False
        return
    ast.fix_missing_locations(tree)
    ns = {}
    exec(compile(tree, "constants", "exec"), vars(constants), ns)
    old, fn.__code__ = fn.__code__, ns[fn.__name__].__code__
    published, spec.CALIBRATION[:] = spec.CALIBRATION[:], values
    try:
        yield True
    finally:
        fn.__code__ = old
        spec.CALIBRATION[:] = published


def run_case(case, res):
    if isinstance(case, tuple):
        with calibrated(case[0]) as found:
            if found:
                laws.run(case[1], res)
        return
    laws.run(case, res)
