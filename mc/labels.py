"""Reference automata for label weights (written from the documentation, one label / one bar at a time)."""
import math
from fractions import Fraction


def concurrency(n, ev, to):
    """number of labels alive at every bar; a label lives from its event to its touch bar inclusive"""
    alive = [0] * n
    for s, e in zip(ev, to):
        for j in range(s, e + 1):
            alive[j] += 1
    return alive


def uniqueness(alive, ev, to):
    out = []
    for s, e in zip(ev, to):
        tot = Fraction(0)
        for j in range(s, e + 1):
            tot += Fraction(1, alive[j])
        out.append(tot / (e - s + 1))
    return out


def attribution(alive, ev, to, px):
    out = []
    for s, e in zip(ev, to):
        w = 0.0
        for j in range(max(s, 1), e + 1):
            w += (math.log(px[j]) - math.log(px[j - 1])) / alive[j]
        out.append(abs(w))
    return out


def decay(u, c):
    """piecewise linear in cumulative uniqueness: newest 1, oldest end c; negative c erases the oldest share -c"""
    s = math.fsum(u)
    out, cum = [], 0.0
    for x in u:
        cum += x
        f = cum / s
        out.append(c + (1 - c) * f if c >= 0 else max(0.0, (f + c) / (1 + c)))
    return out


def balance(labels, w):
    cls = sorted(set(labels))
    tot = {k: math.fsum(x for l, x in zip(labels, w) if l == k) for k in cls}
    t = math.fsum(tot.values())
    cw = {k: (t / (len(cls) * tot[k]) if tot[k] > 0 else 0.0) for k in cls}
    return cls, [cw[k] for k in cls], [tot[k] for k in cls], [x * cw[l] for l, x in zip(labels, w)]
