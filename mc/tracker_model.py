"""Reference model of tracking through a field element, in exact arithmetic.

Times are Fractions, in ticks. The model is the specification written in the
documentation of the tracker: an event queue in which every bunch, every
numerical field and the outputs have a "next" time; the earliest goes first;
simultaneous events go bunches -> fields -> outputs, in the order in which they
were given. It shares no code with the implementation.
"""
from fractions import Fraction as F
from math import ceil


def simulate(t_final, bunches, fields, n_out, push_before_out):
    """Return the list of events of one tracking.

    bunches : list of callables t -> time step (constant for fixed steps)
    fields  : list of (period, force_even)
    n_out   : number of outputs after the initial one (0: no output)
    """
    t_final = F(t_final)
    ev = []
    periods = []
    for period, force_even in fields:
        period = F(period)
        if force_even:
            period = t_final / ceil(t_final / period)
        periods.append(period)
    t_b = [F(0)] * len(bunches)
    k_f = [0] * len(fields)
    k_o = 0
    for i in range(len(fields)):
        ev.append(('refresh', i, F(0)))
    if n_out:
        ev.append(('out', 0, F(0)))

    def next_b(i):
        return min(t_b[i] + F(bunches[i](t_b[i])), t_final)

    def push(i, t1):
        if t1 > t_b[i]:
            ev.append(('push', i, t_b[i], t1))
            t_b[i] = t1

    while True:
        cand = []
        for i in range(len(bunches)):
            if t_b[i] < t_final:
                cand.append((next_b(i), 0, i))
        for i in range(len(fields)):
            t = (k_f[i] + 1) * periods[i]
            if t <= t_final:
                cand.append((t, 1, i))
        if n_out and k_o < n_out:
            cand.append(((k_o + 1) * t_final / n_out, 2, 0))
        if not cand:
            break
        t, kind, i = min(cand)
        if kind == 0:
            push(i, t)
        elif kind == 1:
            k_f[i] += 1
            ev.append(('refresh', i, t))
        else:
            k_o += 1
            if push_before_out:
                for j in range(len(bunches)):
                    push(j, t)
            ev.append(('out', k_o, t))
    return ev


def near_tie(ev_times, tol=F(1, 10**4)):
    """True if two distinct event times are closer than tol ticks."""
    ts = sorted(set(ev_times))
    return any(b - a < tol for a, b in zip(ts, ts[1:]))


def constant(dt):
    return lambda t: F(dt)


# Adaptive step laws: time step (ticks) as a function of the elapsed time
# (ticks). The thresholds are irrational-ish so that no event falls on them.
def law_growing(t):
    return F(1) if t < F('3.1415') else F(3)


def law_shrinking(t):
    return F(5) if t < F('4.7182') else F(1)


def law_huge(t):
    return F(40)


def law_mixed(t):
    if t < F('1.6180'):
        return F(2)
    if t < F('6.2831'):
        return F(1, 2)
    return F(30)


LAWS = {'grow': law_growing, 'shrink': law_shrinking, 'huge': law_huge,
        'mixed': law_mixed}


def as_step(spec):
    """'grow' -> law, number (int or 'a/b' string) -> constant."""
    if isinstance(spec, str) and spec in LAWS:
        return LAWS[spec]
    return constant(F(spec))


def is_auto(spec):
    return isinstance(spec, str) and spec in LAWS
