"""Plain statistics of lists of Python numbers (missing value = NaN)."""
import math
nan = float('nan')
inf = float('inf')


def valid(v):
    return [x for x in v if x == x]


def _inf(v):
    return [x for x in v if x in (inf, -inf)]


def fsum(v):
    if _inf(v):
        s = 0.0
        for x in v:
            s += x
        return s
    if v and isinstance(v[0], (bool, int, long)):
        return sum(v)
    return math.fsum(v)


def sum_(v):
    v = valid(v)
    return fsum(v) if v else nan


def prod(v):
    v = valid(v)
    if not v:
        return nan
    p = 1
    for x in v:
        p = p * x
    return p


def mean(v):
    v = valid(v)
    return float(fsum(v)) / len(v) if v else nan


def geometric_mean(v):
    v = valid(v)
    if not v:
        return nan
    if [x for x in v if x < 0]:
        return nan
    if 0 in v:
        return nan if inf in v else 0.0
    return math.exp(fsum([math.log(x) for x in v]) / len(v)) \
        if inf not in v else inf


def median(v):
    v = sorted(valid(v))
    n = len(v)
    if not n:
        return nan
    if n % 2:
        return float(v[n // 2])
    return (float(v[n // 2 - 1]) + v[n // 2]) / 2.0


def var(v, ddof=0):
    v = valid(v)
    if len(v) - ddof <= 0:
        return nan
    m = mean(v)
    return fsum([(x - m) ** 2 for x in v]) / float(len(v) - ddof)


def std(v, ddof=0):
    r = var(v, ddof)
    return math.sqrt(r) if r == r else nan


def max_(v):
    v = valid(v)
    return max(v) if v else nan


def min_(v):
    v = valid(v)
    return min(v) if v else nan


def any_(v):
    return any([bool(x) for x in v])


def all_(v):
    return all([bool(x) for x in v])


def cumsum(v):
    out = []
    s = 0
    for x in v:
        if x != x:
            out.append(nan)
        else:
            s = s + x
            out.append(s)
    return out


def cumprod(v):
    out = []
    s = 1
    for x in v:
        if x != x:
            out.append(nan)
        else:
            s = s * x
            out.append(s)
    return out


def lastrank(v, decay=0.0):
    """Rank of the last element among the lane, -1 to 1, ties averaged,
    weights decaying back from the last element."""
    if not v or v[-1] != v[-1]:
        return nan
    n = len(v)
    if decay:
        w = [math.exp(-decay * (n - 1 - i)) for i in range(n)]
        t = sum(w)
        w = [n * x / t for x in w]
    else:
        w = [1.0] * n
    # the last element is not compared with itself
    g = sum([wi for x, wi in zip(v[:-1], w) if v[-1] > x])
    e = sum([wi for x, wi in zip(v[:-1], w) if v[-1] == x])
    c = sum([wi for x, wi in zip(v[:-1], w) if x == x])
    if len(valid(v)) < 2:
        return nan
    if c == 0:
        return None     # every weight is too small for a float
    return 2.0 * ((g + g + e) / 2.0 / c - 0.5)
