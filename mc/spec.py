"""Reference model of one appliance-day, written from the documentation (docs/source/algorithm.rst,
input_parameters.rst and the publication [1] they cite), independent from the code.

`law(app, ctx)` returns the exact probability law of the daily profile as a dictionary
{outcome: probability}; an outcome is a tuple of (minute, watts) for the minutes where power is drawn.

Only what a user can observe is modelled: which minutes are on and with which power.
"""
import math
from fractions import Fraction as Fr
from functools import lru_cache

IDLE = 0.01  # anything below is the "appliance could be used now" marker, not a consumption


def canon(profile):
    """outcome observed on a profile produced by the code"""
    import numpy as np

    idx = np.flatnonzero(profile > IDLE)
    return tuple((int(i), round(float(profile[i]), 6)) for i in idx)


def canon_sum(profile):
    """outcome observed on a sum of profiles: the markers of the windows add up to less than 0.01 W"""
    import numpy as np

    idx = np.flatnonzero(profile > IDLE)
    return tuple((int(i), round(float(profile[i]), 2)) for i in idx)


class App(dict):
    """parameters of an appliance, with the documented defaults"""

    DEFAULTS = dict(
        number=1, power=100, num_windows=1, func_time=0, time_fraction_random_variability=0,
        func_cycle=1, fixed="no", fixed_cycle=0, continuous_duty_cycle=1, occasional_use=1,
        flat="no", thermal_p_var=0, pref_index=0, wd_we_type=2, random_var_w=0,
    )

    def __init__(self, **kw):
        super().__init__(App.DEFAULTS)
        self.update(kw)

    def __getattr__(self, k):
        try:
            return self[k]
        except KeyError:
            raise AttributeError(k)

    @property
    def windows(self):
        return [tuple(self[f"window_{i}"]) for i in (1, 2, 3) if f"window_{i}" in self]

    @property
    def constant_power(self):
        p = self["power"]
        return p if not isinstance(p, (list, tuple)) else p[0]


# ------------------------------------------------------------------------- windows
def window_law(w, var_fraction):
    """law of a randomised window: each limit is shifted by at most a fraction of its duration"""
    s, e = w
    var = int(var_fraction * (e - s))
    out = {}
    n = Fr(1, 2 * var + 1)
    for a in range(s - var, s + var + 1):
        for b in range(e - var, e + var + 1):
            lo, hi = max(a, 0), min(b, 1440)
            hi = max(lo, hi)
            out[(lo, hi)] = out.get((lo, hi), 0) + n * n
    return out


def windows_law(app):
    laws = [window_law(w, app.random_var_w) for w in app.windows]
    out = {(): Fr(1)}
    for law_ in laws:
        out = {k + (w,): p * q for k, p in out.items() for w, q in law_.items()}
    return out


def free_ranges(windows):
    out = []
    last = 0
    for s, e in sorted(windows):
        s = max(s, last)
        if s < e:
            out.append((s, e))
            last = e
    return tuple(out)


# ------------------------------------------------------------------------- time of use
def rounded_uniform(a, b):
    """law of round(U) with U uniform between the integers a and b"""
    if a == b:
        return {a: Fr(1)}
    lo, hi = min(a, b), max(a, b)
    out = {}
    for k in range(lo, hi + 1):
        l, h = max(Fr(lo), k - Fr(1, 2)), min(Fr(hi), k + Fr(1, 2))
        out[k] = (h - l) / (hi - lo)
    return out


class NoRoom(Exception):
    pass


def time_law(app, total):
    """law of the total time of use of the day, given the time available in the windows"""
    F = app.func_time
    v = Fr(app.time_fraction_random_variability).limit_denominator(10**6)
    fc = max(1, math.ceil(app.func_cycle))
    out = {}
    if v == 0:
        raw = {F: Fr(1)}
    else:
        raw = {}
        lo, hi = F * (1 - v), F * (1 + v)
        m = math.floor(lo)
        while m < hi:
            l, h = max(lo, Fr(m)), min(hi, Fr(m + 1))
            if h > l:
                p = (h - l) / (hi - lo)
                for k, q in rounded_uniform(F, m).items():
                    raw[k] = raw.get(k, 0) + p * q
            m += 1
    for t, p in raw.items():
        t = max(t, fc)
        if t > 0.99 * total:
            t = int(0.99 * total)
        if t < fc:
            t = None  # does not fit: an error is raised
        out[t] = out.get(t, 0) + p
    return out


# ------------------------------------------------------------------------- coincidence
def _phi(x):
    return 0.5 * math.erfc(-x / math.sqrt(2.0))


# mu_peak, s_peak, op_factor
CALIBRATION = [0.5, 0.5, 0.5]


def coincidence_law(number, fixed, peak):
    """law of the number of appliances switched on together (eqs. 3 and 4 of [1])"""
    mu_peak, s_peak, op = CALIBRATION
    if fixed == "yes" or number == 1:
        return {number: 1.0}
    if peak:
        mu, sigma = number * mu_peak, number * mu_peak * s_peak
        out = {}
        for k in range(1, number + 1):
            hi = 1.0 if k == number else _phi((k - mu) / sigma)
            lo = 0.0 if k == 1 else _phi((k - 1 - mu) / sigma)
            out[k] = hi - lo
        return out
    out = {}
    for k in range(1, number + 1):
        out[k] = (1.0 if k < number else 1.0 - op) / (number - op)
    return out


def overlaps(first, last, lo, hi):
    """two ranges of minutes, limits included, have a minute in common"""
    return first <= hi and last >= lo


# ------------------------------------------------------------------------- duty cycles
def cycle_lengths(t, r):
    """law of the length of one part of a duty cycle"""
    t = int(t)
    r = Fr(r).limit_denominator(10**6)
    if r == 0 or t == 0:
        return {t: Fr(1)}
    lo, hi = t * (1 - r), t * (1 + r)
    out = {}
    m = math.floor(lo)
    while m < hi:
        l, h = max(lo, Fr(m)), min(hi, Fr(m + 1))
        if h > l:
            out[m] = out.get(m, 0) + (h - l) / (hi - lo)
        m += 1
    return out


def one_cycle(p1, t1, p2, t2, r):
    out = {}
    for a, p in cycle_lengths(t1, r).items():
        for b, q in cycle_lengths(t2, r).items():
            key = (float(p1),) * a + (float(p2),) * b
            out[key] = out.get(key, 0) + p * q
    return out


def factor_law(v, cells):
    """law of the power factor, uniform in [1-v, 1+v], at the resolution of the exploration: the mid
    points of `cells` equal cells"""
    if v == 0:
        return {1.0: Fr(1)}
    return {1 - v + (2 * i + 1) * v / cells: Fr(1, cells) for i in range(cells)}


def cycles_law(app, cells=1):
    """law of the patterns of the three duty cycles of the day: {(c1, c2, c3): p}"""
    fcy = int(app.fixed_cycle)
    if fcy == 0:
        return {None: Fr(1)}
    n = min(fcy, 3)
    laws = []
    for i in range(1, n + 1):
        total = {}
        for f1, q1 in factor_law(app.thermal_p_var, cells).items():
            for f2, q2 in factor_law(app.thermal_p_var, cells).items():
                args = (
                    app.get(f"p_{i}1", 0) * f1, app.get(f"t_{i}1", 0),
                    app.get(f"p_{i}2", 0) * f2, app.get(f"t_{i}2", 0), app.get(f"r_c{i}", 0),
                )
                base = one_cycle(*args)
                if n == 3:  # the cycle or the reversed one
                    rev = one_cycle(args[2], args[3], args[0], args[1], args[4])
                    mix = {}
                    for d in (base, rev):
                        for k, p in d.items():
                            mix[k] = mix.get(k, 0) + p / 2
                    base = mix
                for k, p in base.items():
                    total[k] = total.get(k, 0) + p * q1 * q2
        laws.append(total)
    out = {(): Fr(1)}
    for l in laws:
        out = {k + (c,): p * q for k, p in out.items() for c, q in l.items()}
    return out


def duty_windows(app):
    """list of (cycle number, window)"""
    out = []
    for i in (1, 2, 3):
        for j in (1, 2):
            w = app.get(f"cw{i}{j}")
            if w is None and i == 1 and app.fixed_cycle == 1:
                # a single duty cycle is associated with the windows of use by default
                w = app.get(f"window_{j}")
            if w is not None and w[0] != w[1]:
                out.append((i, tuple(w)))
    return out


def duty_cycle_of(app, first, last):
    for i, w in duty_windows(app):
        if overlaps(first, last, w[0], w[1]):
            return i
    return None


# ------------------------------------------------------------------------- switch-on events
def candidate_events(free, T, fc):
    """law of (start, duration) of the next switch-on event"""
    starts = [(a, e) for s, e in free for a in range(s, e - fc + 1)]
    out = {}
    for a, e in starts:
        L = min(T, e - a)
        if L <= fc:
            out[(a, fc)] = out.get((a, fc), 0) + Fr(1, len(starts))
        else:
            for d in range(fc, L):
                out[(a, d)] = out.get((a, d), 0) + Fr(1, len(starts) * (L - fc))
    return out


def events_law(app, free, T, cycles):
    """law of the sequence of events: {((start, duration, cycle id), ...): p} (as a sorted tuple)"""
    fc = max(1, math.ceil(app.func_cycle))
    cache = {}

    def rest(free, tot):
        key = (free, tot)
        if key in cache:
            return cache[key]
        cand = candidate_events(free, T, fc)
        if cycles is not None:
            good = {}
            for (a, d), p in cand.items():
                i = duty_cycle_of(app, a, a + d - 1)
                if i is not None:
                    if app.continuous_duty_cycle == 0:
                        d = min(d, max(1, len(cycles[i - 1])))
                    good[(a, d, i)] = good.get((a, d, i), 0) + p
            mass = sum(good.values())
            cand = {k: p / mass for k, p in good.items()}
        else:
            cand = {(a, d, 0): p for (a, d), p in cand.items()}
        out = {}
        if not cand or tot >= T:
            out[()] = Fr(1)
        for (a, d, i), p in cand.items() if tot < T else ():
            left = T - tot
            if d >= left:
                k = ((a, left, i),)
                out[k] = out.get(k, 0) + p
                continue
            nf = []
            for s, e in free:
                if s <= a and a + d <= e:
                    if s < a:
                        nf.append((s, a))
                    if a + d < e:
                        nf.append((a + d, e))
                else:
                    nf.append((s, e))
            for k, q in rest(tuple(nf), tot + d).items():
                k2 = tuple(sorted(((a, d, i),) + k))
                out[k2] = out.get(k2, 0) + p * q
        cache[key] = out
        return out

    return rest(tuple(free), 0)


def profile_of(app, events, ks, cycles, power):
    """ks: the multiplier (appliances switched on x power factor) of each event"""
    prof = {}
    for (a, d, i), k in zip(events, ks):
        for j in range(d):
            if i == 0:
                val = k * power
            else:
                c = cycles[i - 1]
                val = k * c[j % len(c)] if c else 0  # a cycle randomised to nothing draws no power
            if val > IDLE:
                prof[a + j] = round(float(val), 6)
    return tuple(sorted(prof.items()))


def use_law(app, peak, power, cells=1):
    """law of the profile given that the appliance is used on that day"""
    out = {}
    for windows, pw in windows_law(app).items():
        total = sum(e - s for s, e in windows)
        for T, pt in time_law(app, total).items():
            if T is None:
                out["ValueError"] = out.get("ValueError", 0) + float(pw * pt)
                continue
            if app.flat == "yes":
                prof = {}
                for s, e in windows:
                    for m in range(s, e):
                        prof[m] = round(float(power * app.number), 6)
                key = tuple(sorted(prof.items())) if power * app.number > IDLE else ()
                out[key] = out.get(key, 0) + float(pw * pt)
                continue
            for cycles, pc in cycles_law(app, cells).items():
                ev = events_law(app, free_ranges(windows), T, cycles)
                for events, pe in ev.items():
                    base = float(pw * pt * pc * pe)
                    combos = [((), 1.0)]
                    for a, d, i in events:
                        cl = coincidence_law(
                            app.number, app.fixed, overlaps(a, a + d - 1, peak[0], peak[1])
                        )
                        fl = {1.0: Fr(1)} if i else factor_law(app.thermal_p_var, cells)
                        combos = [
                            (ks + (k * f,), q * p * float(r))
                            for ks, q in combos
                            for k, p in cl.items()
                            for f, r in fl.items()
                        ]
                    for ks, q in combos:
                        key = profile_of(app, events, ks, cycles, power)
                        out[key] = out.get(key, 0) + base * q
    return out


def law(app, peak=(2000, 2001), day_type=0, power=None, user_preference=0, cells=1):
    """law of the daily profile of the appliance for one single user"""
    if power is None:
        power = app.constant_power
    if app.func_time == 0 or app.number == 0 or app.wd_we_type not in (day_type, 2):
        return {(): 1.0}
    p_used = float(app.occasional_use)
    if app.pref_index:
        if app.pref_index > user_preference:
            return {(): 1.0}
        p_used = p_used / user_preference
    out = {}
    if p_used < 1:
        out[()] = 1.0 - p_used
    if p_used > 0:
        for k, p in use_law(app, peak, power, cells).items():
            out[k] = out.get(k, 0) + p * p_used
    return out


def convolve(laws):
    """law of the sum of independent profiles"""
    out = {(): 1.0}
    for l in laws:
        new = {}
        for a, p in out.items():
            for b, q in l.items():
                d = dict(a)
                for m, v in b:
                    d[m] = round(d.get(m, 0) + v, 6)
                key = tuple(sorted(d.items()))
                new[key] = new.get(key, 0) + p * q
        out = new
    return out


def compare(observed, expected, tol=1e-7):
    """differences between two laws, as text lines"""
    diffs = []
    for k in set(observed) | set(expected):
        o, e = observed.get(k), expected.get(k)
        if e is None or (e is not None and e < 1e-15 and (o or 0) > tol):
            diffs.append((1, f"outcome {show(k)} occurs (probability {o:.3g}) but is not possible"))
        elif o is None:
            if e > tol:
                diffs.append((0, f"outcome {show(k)} never occurs, expected probability {e:.6g}"))
        elif abs(o - e) > tol:
            diffs.append((2, f"outcome {show(k)} has probability {o:.6g}, expected {e:.6g}"))
    diffs.sort()
    return [d for _, d in diffs]


def show(k):
    if isinstance(k, str):
        return k
    if not k:
        return "[nothing on]"
    parts = []
    start = prev = None
    val = None
    for m, v in tuple(k) + ((10**9, None),):
        if start is not None and m == prev + 1 and v == val:
            prev = m
            continue
        if start is not None:
            parts.append(f"{start}-{prev}:{val:g}W")
        start, prev, val = m, m, v
    return "[" + " ".join(parts) + "]"
