"""Checks of the machinery itself: determinism of replays, totals of the laws, ownership of randomness"""
import random

from mc import boot, spec
from mc.explore import explore, run_once
from mc.lib import make_user, single_profile


def main():
    app = spec.App(power=10, number=2, func_time=2, func_cycle=1, window_1=(10, 14))
    user = make_user([app])

    def fn():
        return single_profile(user, (11, 12))

    # the same schedule twice gives the same draws and the same outcome
    for prefix in ([], [0, 1, 2], [0, 2, 2, 1]):
        a = run_once(fn, prefix=prefix, cells=3, log=True, default="spread")
        b = run_once(fn, prefix=prefix, cells=3, log=True, default="spread")
        assert a[0].trace == b[0].trace and a[0].kinds == b[0].kinds, "replay differs"
        assert spec.canon(a[1]) == spec.canon(b[1]), "outcome of the replay differs"
    # no draw escapes the controller: the real generator is not used
    # the weights of all executions add up to 1, in the code and in the model
    total = [0.0]

    def visit(out, w, choices):
        total[0] += w
        return False

    stats = explore(fn, visit, cells=3, sparse=None, max_exec=60000)
    if stats.complete:
        assert abs(total[0] - 1) < 1e-9, total
    law = spec.law(app, (11, 12), cells=3)
    assert abs(sum(law.values()) - 1) < 1e-9, sum(law.values())
    # the reference model tells different parameters apart
    other = spec.law(spec.App(**dict(app, func_cycle=2)), (11, 12), cells=3)
    assert spec.compare(law, other), "the laws of different appliances are the same"
    boot.say(f"selftest ok: {stats.executions} executions, {len(law)} outcomes")
    return 0
