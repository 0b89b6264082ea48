"""Stateless exhaustive exploration of the executions of the real code.

An execution is a function of the choices made by the controlled random generator. `explore` walks
the whole tree of choices depth first, re-running the code from fresh objects for every branch
(stateless model checking); `deviations` walks all the choice sequences which differ from a
default schedule in at most d draws.
"""
from mc import rng
from mc.rng import Controller, controlled, Horizon, Divergence


class Stats:
    def __init__(self):
        self.executions = 0
        self.states = 0
        self.transitions = 0
        self.maxdepth = 0
        self.complete = True
        self.divergences = 0
        self.weight = 0.0

    def add(self, o):
        self.executions += o.executions
        self.states += o.states
        self.transitions += o.transitions
        self.maxdepth = max(self.maxdepth, o.maxdepth)
        self.complete = self.complete and o.complete
        self.divergences += o.divergences

    def dict(self):
        return dict(
            executions=self.executions,
            states=self.states,
            transitions=self.transitions,
            maxdepth=self.maxdepth,
            complete=self.complete,
            divergences=self.divergences,
        )


class Crash:
    """outcome of an execution which raised an exception"""

    def __init__(self, exc):
        self.type = type(exc).__name__
        self.msg = str(exc)[:300]
        import traceback

        self.tb = "".join(traceback.format_exception(type(exc), exc, exc.__traceback__)[-4:])[-1200:]

    def __repr__(self):
        return f"{self.type}: {self.msg}"


def run_once(fn, prefix=(), **ctl_args):
    """run fn() under a controller; returns (controller, outcome)"""
    ctl = Controller(prefix=prefix, **ctl_args)
    with controlled(ctl):
        try:
            out = fn()
        except Divergence:
            raise
        except Horizon:
            out = Crash(RuntimeError(f"no termination after {ctl.horizon} random draws"))
        except Exception as e:  # noqa
            out = Crash(e)
    return ctl, out


def explore(fn, visit, max_exec=None, prefix=(), stats=None, **ctl_args):
    """exhaustive DFS over the choice tree of fn

    visit(outcome, weight, choices) is called for each execution; it may return True to stop.
    """
    st = stats or Stats()
    fixed = len(prefix)
    todo = list(prefix)
    seen_base = fixed
    while True:
        try:
            ctl, out = run_once(fn, prefix=todo, **ctl_args)
        except Divergence:
            st.divergences += 1
            st.complete = False
            break
        st.executions += 1
        depth = len(ctl.trace)
        st.maxdepth = max(st.maxdepth, depth)
        new = depth - seen_base
        st.states += new + 1  # new choice points and the final state
        st.transitions += new + (1 if st.executions > 1 else 0)
        st.weight += ctl.weight
        choices = [t[0] for t in ctl.trace]
        if visit(out, ctl.weight, choices):
            st.complete = False
            break
        # backtrack
        i = depth - 1
        while i >= fixed and ctl.trace[i][0] + 1 >= ctl.trace[i][1]:
            i -= 1
        if i < fixed:
            break
        if max_exec is not None and st.executions >= max_exec:
            st.complete = False
            break
        todo = choices[:i] + [choices[i] + 1]
        seen_base = i + 1
    return st


def deviations(fn, visit, d=1, default="mid", max_exec=None, stats=None, **ctl_args):
    """all executions differing from the default schedule in at most d draws"""
    st = stats or Stats()
    stack = [([], d)]
    while stack:
        prefix, left = stack.pop()
        if max_exec is not None and st.executions >= max_exec:
            st.complete = False
            break
        try:
            ctl, out = run_once(fn, prefix=prefix, default=default, **ctl_args)
        except Divergence:
            st.divergences += 1
            continue
        st.executions += 1
        depth = len(ctl.trace)
        st.maxdepth = max(st.maxdepth, depth)
        st.states += depth - len(prefix) + 1
        st.transitions += depth - len(prefix) + (1 if prefix else 0)
        st.weight += ctl.weight
        choices = [t[0] for t in ctl.trace]
        if visit(out, ctl.weight, choices):
            st.complete = False
            break
        if left > 0:
            for pos in range(len(prefix), depth):
                i, n, _ = ctl.trace[pos]
                for j in range(n):
                    if j != i:
                        stack.append((choices[:pos] + [j], left - 1))
    return st
