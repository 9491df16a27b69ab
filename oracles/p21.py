import datetime
import re
from oracles import util
from oracles.util import *
from request_parser.utils.http import http_date, parse_http_date, parse_http_date_safe

RULE = 'instants from year 100 to 9999 in the three HTTP date formats, and damaged dates; non-trivial for a valid date after 1970'
MON = 'Jan Feb Mar Apr May Jun Jul Aug Sep Oct Nov Dec'.split()
DAY = 'Monday Tuesday Wednesday Thursday Friday Saturday Sunday'.split()
LO, HI = -59011459200, 253402300799
E = datetime.datetime(1970, 1, 1)


def gen(rng):
    t = rng.choice((rng.randint(LO, HI), rng.randint(0, 2 ** 31), rng.randint(0, 4 * 10 ** 9), rng.choice((0, 951782400, 68169600)) + rng.randint(-90000, 90000)))
    how = rng.choice(('http_date', '1123', '850', 'asctime', 'damaged', 'fields'))
    extra = None
    if how == 'damaged':
        s = fmt(t, rng.choice(('1123', '850', 'asctime')))
        i = rng.randrange(len(s))
        extra = rng.choice((s[:i] + s[i + 1:], s[:i] + rng.choice('0 9:-xZ,') + s[i + 1:], s + rng.choice(' x0\r\n'), ' ' + s, s.replace('GMT', 'UTC'), s[:i]))
    if how == 'fields':
        extra = (rng.randint(0, 32), rng.choice(MON + ['Foo']), rng.choice((1900, 1970, 2000, 2100, 2024, 99, 0)), rng.randint(0, 25), rng.randint(0, 61), rng.randint(0, 61))
    return (how, t, extra)


def fixed():
    for t in (0, 1, -1, LO, HI, 951782400, 784111777):
        for how in ('http_date', '1123', '850', 'asctime'):
            yield (how, t, None)


def fmt(t, how):
    d = E + datetime.timedelta(seconds=t)
    hms = '%02d:%02d:%02d' % (d.hour, d.minute, d.second)
    if how == '1123':
        return '%s, %02d %s %04d %s GMT' % (DAY[d.weekday()][:3], d.day, MON[d.month - 1], d.year, hms)
    if how == '850':
        return '%s, %02d-%s-%02d %s GMT' % (DAY[d.weekday()], d.day, MON[d.month - 1], d.year % 100, hms)
    return '%s %s %2d %s %04d' % (DAY[d.weekday()][:3], MON[d.month - 1], d.day, hms, d.year)


def nontrivial(c):
    return c[0] not in ('damaged', 'fields') and c[1] > 0


def seconds(y, mo, d, h, mi, s):
    x = datetime.datetime(y, mo, d, h, mi, s) - E
    return x.days * 86400 + x.seconds


def meaning(s):
    """independent reading of a date string; None when invalid"""
    m = re.match(r'\w{3}, (\d\d) (\w{3}) (\d{4}) (\d\d):(\d\d):(\d\d) GMT\Z', s)
    if m:
        d, mo, y, h, mi, sec = m.groups()
    else:
        m = re.match(r'\w{6,9}, (\d\d)-(\w{3})-(\d\d) (\d\d):(\d\d):(\d\d) GMT\Z', s)
        if m:
            d, mo, y, h, mi, sec = m.groups()
        else:
            m = re.match(r'\w{3} (\w{3}) ([ \d]\d) (\d\d):(\d\d):(\d\d) (\d{4})\Z', s)
            if not m:
                return None
            mo, d, h, mi, sec, y = m.groups()
    y = int(y)
    if y < 70:
        y += 2000
    elif y < 100:
        y += 1900
    try:
        return seconds(y, [x.lower() for x in MON].index(mo.lower()) + 1, int(d), int(h), int(mi), int(sec))
    except ValueError:
        return None


def check(case):
    how, t, extra = case
    if how == 'http_date':
        s = http_date(t)
        if s != fmt(t, '1123'):
            return 'http_date(%d) is %r instead of %r' % (t, s, fmt(t, '1123'))
        want = t
        if http_date(t + 0.25) != s:
            return 'http_date(%r) is %r' % (t + 0.25, http_date(t + 0.25))
    elif how in ('1123', '850', 'asctime'):
        s = fmt(t, how)
        want = t if how != '850' else meaning(s)
    elif how == 'fields':
        d, mo, y, h, mi, sec = extra
        s = 'Mon, %02d %s %04d %02d:%02d:%02d GMT' % (d, mo, y, h, mi, sec)
        want = meaning(s)
    else:
        s = extra
        want = meaning(s)
    try:
        got = parse_http_date(s)
    except ValueError:
        got = None
    if got != want or (got is not None and not isinstance(got, (int, long))):
        return 'parse_http_date(%r) is %r instead of %r' % (s, got, want)
    if parse_http_date_safe(s) != want:
        return 'parse_http_date_safe(%r) is %r' % (s, parse_http_date_safe(s))
    return None
