"""Cases of the checks which compare the exact law of a daily profile with the reference model"""
import numpy as np

from mc import spec
from mc.lib import check_law, make_user, single_profile


class Case:
    """one appliance (or several) of one single user, with the options of the exploration"""

    def __init__(self, app, **opts):
        self.app = app
        self.opts = opts


def run(case, res, invariants=()):
    opts = dict(case.opts)
    app = case.app
    peak = opts.pop("peak", (2000, 2010))
    day_type = opts.pop("day_type", 0)
    user_preference = opts.pop("user_preference", 0)
    prof_i = opts.pop("day", 0)
    num_users = opts.pop("num_users", 1)
    cells = opts.pop("cells", 4)
    cells01 = opts.pop("cells01", 1)
    power = app["power"]
    if isinstance(power, (list, tuple)):
        power = power[prof_i]
    expected = spec.law(app, peak, day_type, power=power, user_preference=user_preference, cells=cells)
    if num_users > 1:
        expected = spec.convolve([expected] * num_users)

    def simulate(user):
        if num_users > 1:
            return user.generate_aggregated_load_profile(prof_i, np.arange(peak[0], peak[1] + 1), day_type)
        return single_profile(user, peak, day_type, prof_i)

    check_law(
        res,
        lambda: make_user([app], num_users, user_preference),
        simulate,
        expected,
        res.case,
        cells=cells,
        cells01=cells01,
        invariants=invariants,
        ratios=(app.thermal_p_var,) if app.thermal_p_var else (),
        canon=spec.canon_sum if num_users > 1 else spec.canon,
        **opts,
    )
