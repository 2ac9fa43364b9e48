"""Dates, formats and timezones for %date and %timestamp."""
import datetime, math
from gen_data import literal

EPOCH = datetime.datetime(1970, 1, 1)
NUMERIC = 'YmdCyeHkIlMSjUWVGguws'
FIXED = ['A', 'B', 'a', 'b', 'h', 'p', 'P', 'z', ':z', '::z', ':::z', 'Z', '+', '.f', '.3f', '.6f', '.9f', '3f', '6f', '9f', 'f', 'n', 't', '%']
COMBO = list('DFTRXxcrv')
ODD = ['Q', 'E', 'i', 'J', 'N', 'O', ':', '::', ':::', '.', '.4f', '4f', '.3', '3', '#', '#Y', '--', '-', '_', '-F', '0T', '_n', '-%', '-A', '0z', '-:z', '- d', '+z', 'é', '!', '#f']
BETWEEN = ['-', '/', ':', ' ', '  ', 'T', '.', ', ', '', ' at ', 'é', '年', '\t', '\n', 'o', '{', '(', ' - ', '+']
DATES = ['%Y-%m-%d', '%F', '%d.%m.%Y', '%Y%m%d', '%e %B %Y', '%b %d, %Y', '%A, %d %b %Y', '%Y-%j', '%G-W%V-%u', '%Y week %U day %w', '%W/%u %Y', '%D', '%x', '%C%y-%m-%d', '%v', '%a %d %h %Y', '%y%j', '%g %V %a',
         '%-d/%-m/%-Y', '%_d.%_m.%Y', '%Y %j %a', '%Y-%m-%d %A', '%m/%e/%y', '%G %V %A %F', '%Y %W %a', '%Y %U %A']
TIMES = ['%H:%M:%S', '%T', '%X', '%R', '%I:%M:%S %p', '%r', '%l:%M%P', '%H%M%S', '%k:%M:%S', '%H:%M:%S%.f', '%T.%3f', '%T%.9f', '%T,%f', '%-H:%-M:%-S', '%p %I.%M.%S', '%H h %M', '%T %R', '%T %p', '%R %I %P']
ZONES = ['', '', '', ' %z', '%z', ' %:z', ' %#z', ' %Z', ' %::z', ' %:::z']


def moment(rng):
    k = rng.random()
    if k < 0.08:
        return rng.choice([0, -1, 1, 59, 60, 86399, 86400, -86400, -86401, 951782400, 951868800, 4107542400, -2203891200, 253402300799, -62135596800, -62167219200, -62167219201, 2147483647, -2147483648, 4294967295])
    if k < 0.5:
        return rng.randrange(-2208988800, 4102444800)
    if k < 0.8:                     # around the end of a year, a month, a leap day
        y = rng.choice([rng.randrange(1, 9999), rng.randrange(1890, 2110), rng.choice([1900, 2000, 2100, 1996, 4, 400, 9996])])
        m, d = rng.choice([(1, 1), (12, 31), (2, 28), (3, 1), (rng.randrange(1, 13), rng.choice([1, 28])), (12, 29), (1, 3)])
        t = (datetime.datetime(y, m, d) - EPOCH).days * 86400
        return t + rng.choice([0, 86399, -1, rng.randrange(86400), 43200, 43199])
    if k < 0.97:
        return rng.randrange(-62167219200 + 86400, 253402300799 - 86400)
    return rng.choice([-62167219200 - rng.randrange(10**10), 253402300800 + rng.randrange(10**12), rng.randrange(-10**12, 10**12)])


def zone(rng, bad=0.06):
    k = rng.random()
    if k < bad:
        return rng.choice(['24', '-24', '24.0', '100', '-99.5', '1e1', '1.25e1', '25e-1', '5e-2', '1E1', '1e+0', '.5e1', '+.5', '3.', '1e', '1e3', '1x', '0.5.5', '--1', '+', '999999999', '-23.99999', '23.9999', '1:30', '0x1', '1_0'])
    if k < 0.4:
        return str(rng.randrange(-12, 15))
    if k < 0.7:
        return rng.choice(['5.5', '-3.5', '5.75', '+9.5', '12.75', '0.25', '-0.75', '-9.5', '0', '+0', '-0', '0.0', '00', '08', '+1'])
    if k < 0.9:
        return '%s%d.%s' % (rng.choice(['', '-', '+']), rng.randrange(24), rng.choice(['1', '25', '9', '01', '99', '3333', '0003', '0001', '5', '9999', '98']))
    return str(rng.randrange(-23, 24))


def fmt(rng, wrong=0.08):
    k = rng.random()
    if k < 0.4:
        parts = [rng.choice(DATES), rng.choice(TIMES)]
        rng.shuffle(parts)
        f = rng.choice([' ', 'T', ' at ', ', ', '\n']).join(parts) + rng.choice(ZONES)
    elif k < 0.5:
        f = rng.choice(['%c', '%+', '%s', '%c %z', '%s %z', '%s %F', '%s %T', '%s %F %T', '%s %Y', '%s %a', '%c %G', '%s %F %R', '%F %T %s %z', '%s %C', '%s %U %W'])
    else:
        f = ''
        for _ in range(rng.choice([1, 2, 3, 4, 6])):
            d = rng.choice([lambda: rng.choice(NUMERIC), lambda: rng.choice(NUMERIC), lambda: rng.choice('-_0') + rng.choice(NUMERIC + 'f'), lambda: rng.choice(FIXED), lambda: rng.choice(COMBO)])()
            f += '%' + d + rng.choice(BETWEEN)
    if rng.random() < wrong:
        i = rng.randrange(len(f) + 1)
        f = f[:i] + '%' + rng.choice(ODD) + f[i:]
    return f


class Text:
    """One way to write a date by a format."""
    def __init__(self, rng, secs):
        self.rng = rng
        self.secs = secs
        try:
            self.t = EPOCH + datetime.timedelta(seconds=secs)
        except OverflowError:
            self.t = EPOCH

    def directive(self, d):
        t, r = self.t, self.rng
        pad = d[0] if len(d) > 1 and d[0] in '-_0' else ''
        c = d[len(pad):]
        h12 = t.hour % 12 or 12
        week = (t.timetuple().tm_yday, t.weekday())
        iso = t.isocalendar()
        nums = dict(Y=(t.year, 4), m=(t.month, 2), d=(t.day, 2), C=(t.year // 100, 2), y=(t.year % 100, 2), e=(t.day, 2), H=(t.hour, 2), k=(t.hour, 2),
                    I=(h12, 2), l=(h12, 2), M=(t.minute, 2), S=(t.second, 2), j=(week[0], 3), U=((week[0] - (week[1] + 1) % 7 + 6) // 7, 2), W=((week[0] - week[1] + 6) // 7, 2),
                    V=(iso[1], 2), G=(iso[0], 4), g=(iso[0] % 100, 2), u=(iso[2], 1), w=(iso[2] % 7, 1), s=(self.secs, 1), f=(r.choice([0, 5, 123, 123456789]), 9))
        if c in nums:
            n, w = nums[c]
            k = r.random()
            s = str(n).zfill(w) if k < 0.75 else str(n) if k < 0.85 else str(n).rjust(w) if k < 0.93 else r.choice([' ', '  ', '\t']) + str(n).zfill(w)
            if c in 'YG' and r.random() < 0.05:
                s = r.choice(['+', '-', ' +']) + s.strip()
            return s
        if c in 'Bbh':
            s = t.strftime('%B')
            return r.choice([s, s[:3], s if c == 'B' else s[:3], s.upper() if c == 'B' else s[:3].upper(), s[:4]])
        if c in 'Aa':
            s = t.strftime('%A')
            return r.choice([s, s[:3], s if c == 'A' else s[:3], s.lower() if c == 'A' else s[:3].lower()])
        if c in 'pP':
            return r.choice(['AM', 'am', 'aM'] if t.hour < 12 else ['PM', 'pm', 'Pm'])
        if c in ('z', ':z', '::z', ':::z', '#z'):
            h, m = r.choice([(0, 0), (1, 0), (5, 30), (14, 0), (23, 59), (12, 45), (24, 0), (99, 0), (1, 60), (0, 15)]) if r.random() < 0.6 else (r.randrange(24), r.randrange(60))
            return r.choice(['+', '-', '+', '-', '−', ' +', '']) + '%02d' % h + r.choice([':', '', ':', ' ', ': ']) + ('%02d' % m if r.random() < 0.95 else '') if r.random() < 0.95 else r.choice(['Z', 'z', 'UTC', '+1', '+01', '+1:00'])
        if c == 'Z':
            return r.choice(['UTC', 'CET', '', '+01:00', 'X', 'é'])
        if c in ('.f', '.3f', '.6f', '.9f'):
            return r.choice(['', '.5', '.123', '.000', '.123456', '.123456789', '.1234567891', '.', ',5'])
        if c in ('3f', '6f', '9f'):
            return r.choice(['123', '000', '123456', '000000', '000000000', '1', '123456789'])[:r.choice([int(c[0]), 9])]
        if c == '+':
            return t.strftime('%Y-%m-%d').zfill(10) + r.choice(['T', ' ', 't', 'x']) + t.strftime('%H:%M:%S') + r.choice(['', '', '.5', '.123']) + r.choice(['Z', '+00:00', '-01:30', 'UTC', ' utc', '+0100', '', ' +02:00'])
        sub = dict(D='%m/%d/%y', x='%m/%d/%y', F='%Y-%m-%d', T='%H:%M:%S', X='%H:%M:%S', R='%H:%M', r='%I:%M:%S %p', c='%a %b %e %H:%M:%S %Y', v='%e-%b-%Y')
        if c in sub:
            return self.of(sub[c])
        return {'n': '\n', 't': '\t', '%': '%'}.get(c, c)

    def of(self, f):
        out, i = '', 0
        while i < len(f):
            if f[i] != '%':
                ch = f[i]
                if ch.isspace() and self.rng.random() < 0.15:
                    ch = self.rng.choice(['', '  ', '\n', '\t'])
                out += ch
                i += 1
                continue
            for n in (5, 4, 3, 2, 1):
                d = f[i + 1:i + 1 + n]
                if len(d) == n and (d in FIXED or d in COMBO or d in NUMERIC or d == '#z' or (n == 2 and d[0] in '-_0' and d[1] in NUMERIC + 'f')):
                    out += self.directive(d)
                    i += 1 + n
                    break
            else:
                out += f[i]
                i += 1
        return out


def spoil(rng, s):
    if not s:
        return rng.choice(['x', ' ', '1'])
    i = rng.randrange(len(s))
    k = rng.randrange(5)
    if k == 0:
        return s[:i] + s[i + 1:]
    if k == 1:
        return s[:i] + rng.choice('0123456789') + s[i + 1:]
    if k == 2:
        return s[:i] + rng.choice(['0', '9', ' ', '-', ':', 'x', '.']) + s[i:]
    if k == 3:
        return s + rng.choice([' ', 'x', '0', '\n', ' +01:00'])
    return rng.choice([' ', '\n', 'x', '0']) + s


def leap(s, f):
    """A sixty-first second and a moment: not specified."""
    return '60' in s and '%s' in f


def time_option(z):
    return '' if z is None else ' :timezone ' + z


def case(rng):
    k = rng.random()
    f = fmt(rng)
    z = zone(rng) if rng.random() < 0.7 else None
    secs = moment(rng)
    if (secs < -62167219200 + 90000 or secs > 253402300799 - 90000) and any(d in f for d in ('%C', '-C', '_C', '0C')):
        secs = rng.randrange(10**9)
    when = str(secs) if rng.random() < 0.95 else rng.choice(['+' + str(abs(secs)), '0' + str(abs(secs)), '1.5', '1e3', '99999999999999', '-99999999999999', '8210266876799', '8210266876800', '-8334601228800', '-8334601228801', '9223372036854775808', '-0', '+0', '0x1'])
    if len(when) > 12 and any(d in f for d in ('%C', '-C', '_C', '0C')):
        when = '77'
    if k < 0.45:
        return '(%%date %s %s%s)' % (literal(f), when, time_option(z))
    if k < 0.6:
        z2 = rng.choice([z, z, z, zone(rng), None])
        f2 = f.replace('#z', 'z')
        return '(%%timestamp %s (%%date %s %s%s)%s)' % (literal(f2), literal(f2), when, time_option(z), time_option(z2))
    if secs < -62135596800 or secs > 253402300799:
        secs = rng.randrange(-10**10, 10**10)
    f = fmt(rng, 0.03) if rng.random() < 0.2 else rng.choice(DATES) + ' ' + rng.choice(TIMES) + rng.choice(ZONES) if rng.random() < 0.8 else f
    if rng.random() < 0.12:
        f = rng.choice(['%s', '%s ']) + f
    if rng.random() < 0.1:
        f += rng.choice([' %A', ' %j', ' %U', ' %V', ' %G', ' %C', ' %y', ' %d', ' %H', ' %I', ' %p', ' %w', ' %s', '%n', ' %g'])
    text = Text(rng, secs).of(f)
    for _ in range(rng.choice([0, 0, 0, 0, 1, 1, 2])):
        text = spoil(rng, text)
    if leap(text, f):
        return None
    return '(%%timestamp %s %s%s)' % (literal(f), literal(text), time_option(z))
