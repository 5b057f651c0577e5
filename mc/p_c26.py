"""C26: downloaded quotes end up under the right ticker, item and date.

The server is replaced by a stand-in that answers the requested URL from a
table, as the Yahoo server did: rows of the requested ticker and date range."""
import cStringIO
import datetime
import itertools
import sys
import urllib
import urllib2
import urlparse
import numpy as np
from core import Family, check
from model import M, same, raises, nan, wellformed, veq
from la.data.yahoo import quotes

D = datetime.date
HEAD = 'Date,Open,High,Low,Close,Volume,Adj Close\n'
ITEMS = ['open', 'close', 'high', 'low', 'volume', 'adjclose']


class Server(urllib2.BaseHandler):
    """What the server holds and how it words its answers."""
    table = {}
    order = 'desc'
    noise = ''
    log = []

    def http_open(self, req):
        q = urlparse.parse_qs(urlparse.urlparse(req.get_full_url()).query)
        one = lambda k: q[k][0]
        self.log.append(req.get_full_url())
        d1 = D(int(one('c')), int(one('a')) + 1, int(one('b')))
        d2 = D(int(one('f')), int(one('d')) + 1, int(one('e')))
        check(one('g') == 'd', 'daily quotes are not what is asked for')
        rows = [(d, r) for d, r in self.table.get(one('s'), {}).items()
                if d1 <= d <= d2]
        rows.sort()
        if self.order == 'desc':
            rows.reverse()
        elif self.order == 'mixed':
            rows = rows[1::2] + rows[::2]
        text = HEAD
        for i, (d, r) in enumerate(rows):
            text += '%s,%r,%r,%r,%r,%d,%r\n' % (
                d.isoformat(), r['open'], r['high'], r['low'], r['close'],
                r['volume'], r['adjclose'])
            if self.noise == 'short' and i == 0:
                text += '2001-01-01,1,2,3\n'
        if self.noise == 'blank':
            text += '\n\n'
        elif self.noise == 'text':
            text += '<!-- some.server.com, 1 -->\n'
        elif self.noise == 'crlf':
            text = text.replace('\n', '\r\n')
        elif self.noise == 'noend':
            text = text[:-1]
        return urllib.addinfourl(cStringIO.StringIO(text), {},
                                 req.get_full_url())


def serve(table, order='desc', noise=''):
    s = Server()
    s.table, s.order, s.noise, s.log = table, order, noise, []
    op = urllib2.OpenerDirector()
    op.add_handler(s)
    urllib2.install_opener(op)
    return s


DATES = [D(2009, 12, 31), D(2010, 1, 4), D(2010, 2, 1), D(2010, 10, 11)]
TICK = ['B', 'A', '^C']


def row(t, d, n=0):
    """Different numbers everywhere."""
    k = 100.0 * (sum(map(ord, t)) % 89) + d.toordinal() % 97 + n
    return {'open': k + .5, 'high': k + 3.25, 'low': k - 1.125,
            'close': k + 1.0, 'volume': int(1000 * k + 7),
            'adjclose': (k + 1.0) * [1, 0.5, 0.25, 0.75, 2][int(k) % 5]}


def model(table, tickers, d1, d2, adjust):
    got = {}
    for t in tickers:
        got[t] = dict([(d, r) for d, r in table.get(t.upper(), {}).items()
                       if d1 <= d <= d2])
    dates = sorted(set([d for t in tickers for d in got[t]]))
    items = ITEMS[:-1] if adjust else ITEMS
    names = sorted(tickers)
    cells = []
    for t in names:
        for it in items:
            for d in dates:
                r = got[t].get(d)
                if r is None:
                    v = nan
                elif not adjust or it == 'volume':
                    v = float(r[it])
                elif it == 'close':
                    v = r['adjclose']
                else:
                    v = float(np.float64(r[it]) * (
                        np.float64(r['adjclose']) / np.float64(r['close'])))
                cells.append(v)
    return M([names, items, dates], cells, 'f')


def same3(got, want, what):
    """Tickers and items may come in any order, dates ascend."""
    wellformed(got, what)
    check(got.x.ndim == 3 and got.label[2] == want.label[2], lambda:
          '%s: dates %r, want %r' % (what, got.label[2:], want.label[2]))
    for ax in (0, 1):
        check(sorted(got.label[ax]) == sorted(want.label[ax]), lambda:
              '%s: label %r, want %r' % (what, got.label[ax],
                                         want.label[ax]))
    ix = [[want.label[ax].index(l) for l in got.label[ax]]
          for ax in range(3)]
    check([type(d) for d in got.label[2]] == [D] * len(got.label[2]), what)
    same(got, want.select(ix), what, rtol=1e-12)


def subsets(n):
    return list(itertools.product((0, 1), repeat=n))


def has_cases(tier):
    nd = 3 if tier == 'quick' else 4
    for nt in (1, 2, 3):
        for pats in itertools.product(subsets(nd), repeat=nt):
            yield pats


NOISE = ['', 'blank', 'short', 'text', 'crlf', 'noend']


def has_run(ctx, case):
    """Which ticker has quotes on which dates."""
    nt = len(case)
    table = {}
    for t, pat in zip(TICK, case):
        table[t] = dict([(d, row(t, d)) for d, p in zip(DATES, pat) if p])
    ctx.state(case)
    lo, hi = D(1900, 1, 1), D(2999, 1, 1)
    k = sum([sum(p) for p in case])
    perms = list(itertools.permutations(TICK[:nt]))
    for i, tickers in enumerate(perms):
        for j, order in enumerate(('desc', 'asc', 'mixed')):
            noise = NOISE[(i + j + k) % len(NOISE)]
            s = serve(table, order, noise)
            for adjust in (True, False):
                want = model(table, tickers, lo, hi, adjust)
                what = 'quotes(%r, adjust=%r) with %r, %s order' % (
                    tickers, adjust, case, order)
                got = quotes(list(tickers)) if adjust else \
                    quotes(tickers, adjust=False)
                same3(got, want, what)
                ctx.outcome(repr(want))
                ctx.step(1)
            check(len(s.log) == 2 * nt, 'one request per ticker')


ODD = [0.0, nan, -1.5, 1e6, 1e-3]


def odd_cases(tier):
    fields = ['open', 'high', 'low', 'close', 'adjclose']
    for k in range(len(fields) + 1):
        for f in itertools.combinations(fields, k):
            for v in itertools.product(range(len(ODD)), repeat=min(k, 2)):
                yield f, v


def odd_run(ctx, case):
    """Zeros, missing and extreme prices on one day of one ticker"""
    f, v = case
    ctx.state(case)
    table = dict([(t, dict([(d, row(t, d)) for d in DATES[:2]]))
                  for t in TICK[:2]])
    for i, k in enumerate(f):
        table['B'][DATES[0]][k] = ODD[v[i % len(v)]]
    serve(table)
    for adjust in (True, False):
        same3(quotes(['A', 'B'], adjust=adjust),
              model(table, ['A', 'B'], D(1900, 1, 1), D(2999, 1, 1), adjust),
              'quotes with %r' % (case,))
        ctx.step(1)


def range_cases(tier):
    days = [D(2009, 12, 30), D(2009, 12, 31), D(2010, 1, 1), D(2010, 1, 4),
            D(2010, 1, 5), D(2010, 2, 1), D(2010, 10, 11), D(2011, 1, 1),
            D(2009, 1, 31)]
    for a in [None] + days:
        for b in [None] + days:
            for form in ('date', 'tuple'):
                yield a, b, form


def range_run(ctx, case):
    """The asked range of dates and lower case tickers."""
    a, b, form = case
    table = dict([(t, dict([(d, row(t, d)) for d in DATES[i:]]))
                  for i, t in enumerate(TICK)])
    today = D.today()
    table['A'][today] = row('A', today)
    ctx.state(case)
    s = serve(table)
    f = lambda d: d if d is None or form == 'date' else (d.year, d.month,
                                                         d.day)
    for tickers in (['a'], ['b', 'A'], ['^c', 'a', 'b'], ['none', 'a']):
        for adjust in (True, False):
            want = model(table, tickers, a or D(1900, 1, 1),
                         b or D(2999, 1, 1), adjust)
            same3(quotes(tickers, f(a), f(b), adjust), want,
                  'quotes(%r, %r, %r, %r)' % (tickers, a, b, adjust))
            same3(quotes(tickers, date2=f(b), date1=f(a), adjust=adjust),
                  want, 'quotes(%r, %r, %r, %r)' % (tickers, a, b, adjust))
            ctx.step(2)
            ctx.outcome(repr(want))


def many_cases(tier):
    for n in (1, 5, 7, 8, 16, 31, 33, 64, 100, 129, 257, 1000):
        for nt in (1, 2, 5):
            yield n, nt


def many_run(ctx, case):
    n, nt = case
    ctx.state(case)
    names = ['T%d' % (i * 7 % 10) for i in range(nt)]
    table = {}
    for i, t in enumerate(names):
        days = [D(2000, 1, 1) + datetime.timedelta(k * (i + 1) + i)
                for k in range(n)]
        table[t] = dict([(d, row(t, d, k)) for k, d in enumerate(days)])
    serve(table)
    for adjust in (True, False):
        same3(quotes(names, adjust=adjust),
              model(table, names, D(1900, 1, 1), D(2999, 1, 1), adjust),
              'quotes %r' % (case,))
        ctx.step(1)


def hist_cases(tier):
    ops = [(('B',), True), (('A', 'B'), False), (('^C', 'A'), True)]
    for h in itertools.product(range(3), repeat=3):
        yield h


HOPS = [(['B'], True), (['A', 'B'], False), (['^C', 'A'], True)]


def hist_run(ctx, case):
    """One call does not influence the next."""
    table = dict([(t, dict([(d, row(t, d)) for d in DATES[i:]]))
                  for i, t in enumerate(TICK)])
    serve(table)
    ctx.state(case)
    for i in case:
        tickers, adjust = HOPS[i]
        arg = list(tickers)
        got = quotes(arg, adjust=adjust)
        check(arg == tickers, 'quotes changed its argument')
        same3(got, model(table, tickers, D(1900, 1, 1), D(2999, 1, 1),
                         adjust), 'quotes after %r' % (case,))
        got.x[...] = -1
        for l in got.label:
            l[0] = 'changed'
        ctx.step(1)


FAMILIES = [
    Family('holdings', has_cases, has_run,
           'all combinations of dates per ticker, orders, noise'),
    Family('odd prices', odd_cases, odd_run),
    Family('ranges', range_cases, range_run),
    Family('sizes', many_cases, many_run),
    Family('histories', hist_cases, hist_run),
]
BOUNDS = {'quick': 'up to 3 tickers in every order x every subset of 3 dates '
                   'per ticker x 3 server orders x 6 kinds of noise x '
                   'adjustment; 100 date ranges; up to 1000 dates',
          'thorough': 'every subset of 4 dates per ticker'}
ASSUMPTIONS = ['a ticker is asked for once; the server names a date once; a '
               'server error (no answer) is raised to the caller']
RULE = 'cells compared by ticker, item and date, 1e-12'
