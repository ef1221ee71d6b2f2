"""Random and systematic values, JSON texts and mutations (all choices from a seeded generator)."""
import re, struct
from fractions import Fraction

# ------------------------------------------------------------------ numbers

LIM = {'i32': (-2**31, 2**31 - 1), 'i64': (-2**63, 2**63 - 1), 'u32': (0, 2**32 - 1), 'u64': (0, 2**64 - 1)}


def digits(n):
    return list(str(n).encode())


def int_edges(k):
    lo, hi = LIM[k]
    s = {lo, lo + 1, hi, hi - 1, 0, 1, 9, 10, 99, 100, 127, 128, 255, 256, 32767, 65535, 65536, 99999, 1000000, 2**24, 2**24 + 1,
         2**31 - 1, 2**31, 2**32 - 1, 2**32, 2**53, 2**53 + 1, 2**53 - 1, 10**15, 10**16 + 1, 10**18, 10**19, 2**63 - 1, 2**63, 2**64 - 1}
    s |= {-x for x in s}
    return sorted(x for x in s if lo <= x <= hi)


def int_value(rng, k):
    lo, hi = LIM[k]
    r = rng.random()
    if r < 0.4:
        return rng.choice(int_edges(k))
    if r < 0.7:
        return max(lo, min(hi, rng.randint(-1000, 1000))) if lo < 0 else rng.randint(0, 1000)
    v = rng.getrandbits(rng.randint(1, 64))
    if lo < 0 and rng.random() < 0.5:
        v = -v
    return v if lo <= v <= hi else rng.randint(lo, hi)


def round_to(x, bits, emin, emax):
    """Nearest binary floating-point number to the fraction x >= 0, ties to even; None on overflow."""
    if x == 0:
        return 0, 0
    # e such that 2^e <= x < 2^(e+1)
    e = x.numerator.bit_length() - x.denominator.bit_length()
    if Fraction(2) ** e > x:
        e -= 1
    if Fraction(2) ** (e + 1) <= x:
        e += 1
    q = max(e, emin) - (bits - 1)
    y = x / (Fraction(2) ** q)
    m = y.numerator // y.denominator
    r = y - m
    if r > Fraction(1, 2) or (r == Fraction(1, 2) and m % 2 == 1):
        m += 1
    if m >= 2 ** bits:
        m //= 2
        q += 1
    if m >= 2 ** (bits - 1) and q + bits - 1 > emax:
        return None
    return m, q


def bits_of(text, kind):
    """IEEE bytes of the number nearest to the decimal text (list of ints), [] on overflow."""
    bits, emin, emax, size, eb = (53, -1022, 1023, 8, 11) if kind == 'f64' else (24, -126, 127, 4, 8)
    m = re.fullmatch(r'(-?)(\d+)(?:\.(\d+))?(?:[eE]([+-]?\d+))?', text)
    neg, ip, fp, ex = m.group(1), m.group(2), m.group(3) or '', int(m.group(4) or 0)
    mant = int(ip + fp)
    ex -= len(fp)
    if mant == 0:
        sig = 0, 0
    else:
        mag = len(str(mant)) + ex
        if mag > 400:
            return []
        if mag < -400:
            sig = 0, 0
        else:
            sig = round_to(Fraction(mant) * (Fraction(10) ** ex), bits, emin, emax)
    if sig is None:
        return []
    mm, q = sig
    if mm == 0:
        u = 0
    elif mm < 2 ** (bits - 1):
        u = mm                                            # subnormal
    else:
        u = ((q + bits - 1 + emax) << (bits - 1)) | (mm - 2 ** (bits - 1))
    if neg:
        u |= 1 << (size * 8 - 1)
    return list(u.to_bytes(size, 'big'))


RUN = re.compile(rb'[0-9eE.+-]+')
NUM = re.compile(rb'-?(?:0|[1-9][0-9]*)(?:\.[0-9]+)?(?:[eE][+-]?[0-9]+)?\Z')


def float_table(*texts):
    """Conversion of every number that occurs in the texts."""
    seen = {}
    for t in texts:
        t = bytes(t)
        for m in RUN.finditer(t):
            run = m.group()
            for s in {run, run.lstrip(b'eE.+')}:
                if s and s not in seen and len(s) < 5000 and NUM.match(s):
                    seen[s] = {'x': list(s), 'd': bits_of(s.decode(), 'f64'), 'f': bits_of(s.decode(), 'f32')}
    return list(seen.values())


def f64(x):
    return list(struct.pack('>d', x))


def f32(x):
    return list(struct.pack('>f', x))


def float_edges(k):
    if k == 'f64':
        us = [0, 1, 2, 3, 0xFFFFFFFFFFFFF, 0x10000000000000, 0x10000000000001, 0x7FEFFFFFFFFFFFFF, 0x7FEFFFFFFFFFFFFE,
              0x3FF0000000000000, 0x3FF0000000000001, 0x3FEFFFFFFFFFFFFF, 0x3FB999999999999A, 0x4340000000000000, 0x4340000000000001,
              0x433FFFFFFFFFFFFF, 0x41E0000000000000, 0x43E0000000000000, 0x43F0000000000000]
        r = [list(u.to_bytes(8, 'big')) for u in us]
        r += [f64(x) for x in (0.5, 1.5, 2.0, 10.0, 100.0, 1e5, 1e6, 1e15, 1e16, 1e17, 1e21, 1e22, 1e23, 1e-4, 1e-5, 1e-7, 1.1, 3.14159265358979,
                               123456.789, 123456789.0, 0.1 + 0.2, 1e100, 1e-100, 1e300, 1e-300, 1e308, 2.5e-308, 5e-310, 9007199254740993.0,
                               999999.0, 9999999.0, 0.000123456789, 4.35, 1e15 + 0.3, 2**31 - 0.5, 16777217.0)]
    else:
        us = [0, 1, 2, 0x7FFFFF, 0x800000, 0x800001, 0x7F7FFFFF, 0x7F7FFFFE, 0x3F800000, 0x3F800001, 0x3F7FFFFF, 0x3DCCCCCD, 0x4B800000, 0x4B7FFFFF,
              0x4B800001, 0x4F000000, 0x5F000000]
        r = [list(u.to_bytes(4, 'big')) for u in us]
        r += [f32(x) for x in (0.5, 1.5, 2.0, 10.0, 1e5, 1e6, 1e7, 1e8, 1e9, 1e10, 1e20, 1e38, 3e38, 1e-4, 1e-5, 1e-10, 1e-37, 1e-40, 1.1, 3.1415927, 123456.789,
                               0.000123456, 999999.0, 8388609.0, 0.3)]
    return r + [[b[0] | 128] + b[1:] for b in r]


def float_value(rng, k):
    r = rng.random()
    if r < 0.3:
        return rng.choice(float_edges(k))
    if r < 0.5:
        x = rng.randint(-100000, 100000) / rng.choice([1, 10, 100, 1000, 7])
        return f64(x) if k == 'f64' else f32(x)
    while True:
        b = [rng.randrange(256) for _ in range(8 if k == 'f64' else 4)]
        if not is_nonfinite(k, b):
            return b


def nonfinite(k):
    if k == 'f64':
        us = [0x7FF0000000000000, 0xFFF0000000000000, 0x7FF8000000000000, 0xFFF8000000000000, 0x7FF0000000000001, 0x7FFFFFFFFFFFFFFF]
        return [list(u.to_bytes(8, 'big')) for u in us]
    us = [0x7F800000, 0xFF800000, 0x7FC00000, 0xFFC00000, 0x7FFFFFFF]
    return [list(u.to_bytes(4, 'big')) for u in us]


def is_nonfinite(k, b):
    return b[0] % 128 == 127 and b[1] >= (240 if k == 'f64' else 128)


def float_of(k, b):
    return struct.unpack('>d' if k == 'f64' else '>f', bytes(b))[0]


# ------------------------------------------------------------------ text

CP_EDGES = [0, 1, 7, 8, 9, 10, 11, 12, 13, 14, 0x1F, 0x20, 0x21, 0x22, 0x23, 0x27, 0x2F, 0x30, 0x3C, 0x41, 0x5B, 0x5C, 0x5D, 0x61, 0x75, 0x7E, 0x7F,
            0x80, 0x81, 0x9F, 0xA0, 0xE9, 0xFF, 0x100, 0x7FE, 0x7FF, 0x800, 0x801, 0xFFF, 0x1000, 0x1234, 0x2028, 0x2029, 0x20AC, 0xABCD, 0xD7FE, 0xD7FF,
            0xE000, 0xE001, 0xF8FF, 0xFEFF, 0xFFFD, 0xFFFE, 0xFFFF, 0x10000, 0x10001, 0x103FF, 0x10400, 0x1F600, 0x1FFFF, 0x20000, 0x3FFFF, 0x40000, 0xFFFFF,
            0x100000, 0x10FC00, 0x10FFFE, 0x10FFFF]


def utf8(cp):
    return chr(cp).encode('utf-8')


def codepoint(rng):
    r = rng.random()
    if r < 0.35:
        return rng.randint(0x20, 0x7E)
    if r < 0.6:
        return rng.choice(CP_EDGES)
    while True:
        hi = rng.choice([0x20, 0x80, 0x800, 0x10000, 0x110000])
        cp = rng.randrange(hi)
        if not 0xD800 <= cp <= 0xDFFF:
            return cp


def text_value(rng, maxlen=12):
    r = rng.random()
    n = 0 if r < 0.08 else rng.randint(1, maxlen) if r < 0.97 else rng.choice([63, 64, 65, 127, 128, 255, 256, 300])
    return list(b''.join(utf8(codepoint(rng)) for _ in range(n)))


BAD_UTF8 = [b'\x80', b'\xBF', b'\xC0\x80', b'\xC1\xBF', b'\xC2', b'\xC2A', b'\xE0\x80\x80', b'\xE0\x9F\xBF', b'\xE1\x80', b'\xE1', b'\xED\xA0\x80',
            b'\xED\xAF\xBF', b'\xED\xB0\x80', b'\xED\xBF\xBF', b'\xED\xA0\xBD\xED\xB8\x80', b'\xF0\x80\x80\x80', b'\xF0\x8F\xBF\xBF', b'\xF0\x90\x80', b'\xF0\x90', b'\xF0',
            b'\xF4\x90\x80\x80', b'\xF5\x80\x80\x80', b'\xF8\x88\x80\x80\x80', b'\xFC\x84\x80\x80\x80\x80', b'\xFE', b'\xFF', b'\xE2\x28\xA1', b'\xF0\x28\x8C\x28',
            b'\xF0\x9F\x98\x41', b'\xC3\xA9\x80', b'\xE2\x82\xAC\xBF', b'\xEF\xBF', b'\xF4\x8F\xBF', b'\xF7\xBF\xBF\xBF', b'\xE2\x82', b'\xC3\xC3\xA9', b'\xDF\xC0', b'\xE1\xC0\x80', b'\xE1\x80\xC0',
            b'\xF1\x80\x80\x00', b'\xF1\x80\xC0\x80', b'\xEE\x80', b'\xED\xA0']


def bad_text(rng):
    a = bytes(text_value(rng, 4))
    b = bytes(text_value(rng, 4))
    return list(a + rng.choice(BAD_UTF8) + (b if rng.random() < 0.6 else b''))


# ------------------------------------------------------------------ values

def scalar_value(rng, k, bad=0.0):
    if k in LIM:
        return digits(int_value(rng, k))
    if k in ('f32', 'f64'):
        if bad and rng.random() < bad:
            return rng.choice(nonfinite(k))
        return float_value(rng, k)
    if k == 'bool':
        return rng.randint(0, 1)
    if k in ('str', 'sstr'):
        if bad and rng.random() < bad:
            return bad_text(rng)
        return text_value(rng)
    if k == 'bytes':
        n = rng.choice([0, 1, 2, 3, 4, 5, 6, 7, 8, 15, 16, 17, 31, 32, 33]) if rng.random() < 0.95 else rng.randint(50, 200)
        return [rng.randrange(256) for _ in range(n)]
    raise ValueError(k)


def elem_value(rng, S, ty, dens, depth, bad):
    if ty['k'] == 'msg':
        return msg_value(rng, S, ty['m'], dens, depth + 1, bad)
    v = scalar_value(rng, ty['k'], bad)
    if ty['k'] == 'str':
        return [] if rng.random() < 0.1 else [v]
    return v


def field_value(rng, S, ty, dens, depth=0, bad=0.0):
    if ty['r']:
        n = rng.choice([1, 1, 2, 3, 5]) if rng.random() < 0.97 else rng.choice([17, 64])
        if depth > 1:
            n = min(n, 2)
        return [elem_value(rng, S, ty, dens, depth, bad) for _ in range(n)]
    if ty['k'] == 'msg':
        return msg_value(rng, S, ty['m'], dens, depth + 1, bad)
    v = scalar_value(rng, ty['k'], bad)
    return v if ty['k'] == 'bytes' else [v]


def default(S, m):
    return [default(S, f['m']) if f['k'] == 'msg' and not f['r'] else [] for f in S[m - 1]['f']]


def empty_value(S, ty, v):
    if ty['k'] == 'msg' and not ty['r']:
        return all(empty_value(S, t, x) for t, x in zip(S[ty['m'] - 1]['f'], v))
    return v == []


def msg_value(rng, S, m, dens=0.5, depth=0, bad=0.0):
    """dens: how likely a field is present."""
    r = []
    for f in S[m - 1]['f']:
        if rng.random() < (dens if depth < 3 else dens * 0.5):
            r.append(field_value(rng, S, f, dens, depth, bad))
        else:
            r.append(default(S, f['m']) if f['k'] == 'msg' and not f['r'] else [])
    return r


def root_value(rng, S, root, dens=0.5, bad=0.0):
    if root['r']:
        return [elem_value(rng, S, root, dens, 0, bad) for _ in range(rng.choice([0, 1, 2, 3, 7]))]
    return msg_value(rng, S, root['m'], dens, 0, bad)


# ------------------------------------------------------------------ JSON texts

class Style:
    def __init__(self, rng, **kw):
        self.ws = kw.get('ws', rng.choice([0, 0, 0.15, 0.4]))
        self.esc = kw.get('esc', rng.choice([0, 0.1, 0.5, 1]))
        self.num = kw.get('num', rng.choice([0, 0.5, 1]))       # unusual number notations
        self.order = kw.get('order', rng.random() < 0.6)
        self.unknown = kw.get('unknown', rng.choice([0, 0, 0.3, 1.5]))   # expected number of extra members per object
        self.dup = kw.get('dup', 0)
        self.null = kw.get('null', rng.choice([0, 0.2]))        # absent fields written as null
        self.nullelem = kw.get('nullelem', 0)


WS = [b' ', b'\n', b'\t', b'\r', b'  ', b'\r\n', b'\n\n ', b' \t ', b'\n    ']


def ws(rng, st):
    if not st.ws or rng.random() > st.ws:
        return b''
    return rng.choice(WS)


SHORT = {8: b'\\b', 9: b'\\t', 10: b'\\n', 12: b'\\f', 13: b'\\r', 34: b'\\"', 92: b'\\\\', 47: b'\\/'}


def u_escape(rng, cp):
    def one(x):
        h = '%04x' % x
        return b'\\u' + ''.join(rng.choice((c, c.upper())) for c in h).encode()
    if cp < 0x10000:
        return one(cp)
    cp -= 0x10000
    return one(0xD800 + (cp >> 10)) + one(0xDC00 + (cp & 0x3FF))


def string(rng, st, data):
    """A JSON string for the bytes (invalid UTF-8 is passed as it is)."""
    data = bytes(data)
    o = [b'"']
    i = 0
    while i < len(data):
        for n in (1, 2, 3, 4):
            try:
                ch = data[i:i + n].decode('utf-8')
            except UnicodeDecodeError:
                continue
            if len(ch) == 1:
                break
        else:
            o.append(data[i:i + 1])
            i += 1
            continue
        cp = ord(ch)
        i += n
        must = cp < 0x20 or cp in (0x22, 0x5C)
        if must or (st.esc and rng.random() < st.esc):
            if cp in SHORT and rng.random() < 0.7:
                o.append(SHORT[cp])
            else:
                o.append(u_escape(rng, cp))
        else:
            o.append(ch.encode('utf-8'))
    o.append(b'"')
    return b''.join(o)


def number_int(rng, st, dig):
    """A notation of the integer whose canonical digits are given."""
    t = bytes(dig).decode()
    if not st.num or rng.random() > st.num:
        return t.encode()
    neg, body = ('-', t[1:]) if t[0] == '-' else ('', t)
    r = rng.randrange(8)
    e = rng.choice('eE')
    if r == 0:
        t = body + '.' + '0' * rng.randint(1, 4)
    elif r == 1:
        t = body + e + rng.choice(['0', '+0', '-0', '00'])
    elif r == 2:
        k = rng.randint(0, len(body) - 1)
        t = body[:len(body) - k] + ('.' + body[len(body) - k:] if k else '') + e + rng.choice(['', '+']) + '0' * rng.randint(0, 2) + str(k)
    elif r == 3:
        k = rng.randint(1, 5)
        t = (body + '0' * k if body != '0' else '0') + e + '-' + str(k)
    elif r == 4:
        k = len(body) - len(body.rstrip('0'))
        t = (body.rstrip('0') or '0') + e + str(k if body != '0' else rng.randint(0, 30))
    elif r == 5:
        t = '0.' + '0' * 3 + body + e + str(len(body) + 3)
    elif r == 6:
        k = len(body)
        t = body[0] + '.' + (body[1:] or '0') + '00' + e + '+' + str(k - 1)
    else:
        t = body + '.0' + e + '+00'
    if neg == '' and body == '0' and rng.random() < 0.5:
        neg = '-'
    return (neg + t).encode()


def exact_decimal(fr, places=1200):
    """Decimal expansion of a dyadic fraction."""
    neg = fr < 0
    fr = abs(fr)
    k = fr.denominator.bit_length() - 1
    n = fr.numerator * 5 ** k
    s = str(n).rjust(k + 1, '0')
    t = s[:len(s) - k] + ('.' + s[len(s) - k:] if k else '')
    return ('-' if neg else '') + t


def number_float(rng, st, k, b):
    x = float_of(k, b)
    if k == 'f64':
        t = rng.choice([repr(x), '%.17g' % x, '%.20e' % x, '%.16e' % x]) if st.num else repr(x)
    else:
        t = rng.choice(['%.9g' % x, repr(x), '%.12e' % x]) if st.num else '%.9g' % x
    if st.num and rng.random() < st.num * 0.3:
        f = Fraction(x)
        if abs(x) < 1e30 and f.denominator.bit_length() < 200:
            t = exact_decimal(f)
    if st.num and rng.random() < 0.3 and 'e' not in t:
        t += rng.choice(['e0', 'E+0', 'e-0', 'E000'])
    m = re.fullmatch(r'(-?)(\d+)\.?(\d*)([eE].*)?', t)
    if t.startswith('.') or not m:
        t = '0'
    elif not m.group(3):
        t = m.group(1) + m.group(2) + (m.group(4) or '')
    return t.encode()


def halfway(rng, k):
    """Decimal texts near the middle between two neighbouring numbers."""
    while True:
        b = rng.choice(float_edges(k)) if rng.random() < 0.4 else float_value(rng, k)
        u = int.from_bytes(bytes(b), 'big') & ~(1 << (8 * len(b) - 1))
        try:
            lo = Fraction(float_of(k, list(u.to_bytes(len(b), 'big'))))
            hb = list((u + 1).to_bytes(len(b), 'big'))
            if is_nonfinite(k, hb):
                hi = lo + (lo - Fraction(float_of(k, list((u - 1).to_bytes(len(b), 'big')))))
            else:
                hi = Fraction(float_of(k, hb))
        except (OverflowError, ValueError):
            continue
        mid = (lo + hi) / 2
        if mid == 0 or mid.denominator.bit_length() > 1100:
            continue
        t = exact_decimal(mid)
        if len(t) > 400 and rng.random() < 0.9:
            continue
        r = rng.randrange(4)
        if r == 1:
            t = t + ('' if '.' in t else '.') + '0' * rng.randint(0, 3) + '1'
        elif r == 2:                                       # just below the middle
            if '.' in t:
                d = t.rstrip('0')
                t = d[:-1] + str(int(d[-1]) - 1) + '9' * 5 if d[-1] not in '.0' else t
            else:
                t = str(int(t) - 1) + '.9'
        elif r == 3 and '.' in t:
            ip, fp = t.split('.')
            t = (ip + fp).lstrip('0') + 'e-%d' % len(fp)
        if rng.random() < 0.2:
            t = '-' + t
        return t.encode()


LITS = [b'true', b'false', b'null', b'0', b'-1', b'1.5e3', b'""', b'"x"', b'[]', b'{}', b'"\\u00e9"', b'-0.0', b'1e400', b'"\\ud83d\\ude00"', b'[null]', b'{"a":1}', b'123456789012345678901234567890']


def any_value(rng, st, depth=0, names=()):
    """A well-formed value of any kind."""
    r = rng.random()
    if depth > 3 or r < 0.5:
        return rng.choice(LITS)
    if r < 0.55:
        n = rng.choice([1, 2, 30, 100, 200])
        s = rng.choice(['[', '{"a":'])
        inner = rng.choice([b'', b'1'] if s == '[' else [b'1', b'null', b'[]'])
        return s.encode() * n + inner + (b']' if s == '[' else b'}') * n
    if r < 0.75:
        return b'[' + ws(rng, st) + (ws(rng, st) + b',' + ws(rng, st)).join(any_value(rng, st, depth + 1, names) for _ in range(rng.randint(0, 4))) + ws(rng, st) + b']'
    ms = []
    for _ in range(rng.randint(0, 4)):
        nm = rng.choice(list(names)) if names and rng.random() < 0.5 else text_value(rng, 5)
        ms.append(string(rng, st, nm) + ws(rng, st) + b':' + ws(rng, st) + any_value(rng, st, depth + 1, names))
    return b'{' + ws(rng, st) + (ws(rng, st) + b',' + ws(rng, st)).join(ms) + ws(rng, st) + b'}'


import base64 as _b64


def scalar_text(rng, st, k, v):
    if k in LIM:
        return number_int(rng, st, v)
    if k in ('f32', 'f64'):
        return number_float(rng, st, k, v)
    if k == 'bool':
        return b'true' if v else b'false'
    if k in ('str', 'sstr'):
        return string(rng, st, v)
    return string(rng, st, _b64.b64encode(bytes(v)))


def elem_text(rng, S, st, ty, v):
    if st.nullelem and rng.random() < st.nullelem:
        return b'null'
    if ty['k'] == 'msg':
        return obj_text(rng, S, st, ty['m'], v)
    if ty['k'] == 'str':
        return scalar_text(rng, st, 'str', v[0]) if v else b'null'
    return scalar_text(rng, st, ty['k'], v)


def array_text(rng, S, st, ty, v):
    return b'[' + ws(rng, st) + (ws(rng, st) + b',' + ws(rng, st)).join(elem_text(rng, S, st, ty, x) for x in v) + ws(rng, st) + b']'


def field_text(rng, S, st, ty, v):
    if ty['r']:
        return array_text(rng, S, st, ty, v)
    if ty['k'] == 'msg':
        return obj_text(rng, S, st, ty['m'], v)
    if ty['k'] == 'bytes':
        return scalar_text(rng, st, 'bytes', v)
    return scalar_text(rng, st, ty['k'], v[0])


def near_name(rng, names):
    """A name that is not a known one but close to it."""
    while True:
        n = bytes(rng.choice(names)) if names else b'x'
        r = rng.randrange(7)
        if r == 0:
            n = n + b'x'
        elif r == 1:
            n = n[:-1]
        elif r == 2:
            n = n.swapcase()
        elif r == 3:
            n = b' ' + n
        elif r == 4:
            n = bytes(text_value(rng, 6))
        elif r == 5:
            n = n + b'\x00'
        else:
            n = n[1:] + n[:1]
        if n not in [bytes(x) for x in names]:
            return list(n)


def member(rng, st, name, value):
    return string(rng, st, name) + ws(rng, st) + b':' + ws(rng, st) + value


def extra_member(rng, S, st, m, v=None):
    """A member that must not have any influence: unknown, transient or null."""
    fs = S[m - 1]['f']
    known = [f['n'] for f in fs]
    r = rng.random()
    tr = [f for f in fs if f['t']]
    if r < 0.35 and tr:
        f = rng.choice(tr)
        return member(rng, st, f['n'], any_value(rng, st, 0, known))
    return member(rng, st, near_name(rng, known), any_value(rng, st, 0, known))


def obj_text(rng, S, st, m, v):
    ms = []
    for f, x in zip(S[m - 1]['f'], v):
        if f['t']:
            continue
        if empty_value(S, f, x):
            if rng.random() < st.null:
                ms.append(member(rng, st, f['n'], b'null'))
            elif rng.random() < 0.04 and (f['r'] or f['k'] == 'msg' or f['k'] == 'bytes'):
                ms.append(member(rng, st, f['n'], field_text(rng, S, st, f, x)))
        else:
            ms.append(member(rng, st, f['n'], field_text(rng, S, st, f, x)))
    if st.order:
        rng.shuffle(ms)
    n = int(st.unknown) + (1 if rng.random() < st.unknown - int(st.unknown) else 0)
    for _ in range(n):
        ms.insert(rng.randint(0, len(ms)), extra_member(rng, S, st, m))
    if st.dup:
        k = 0
        while rng.random() < st.dup and k < 4:
            k += 1
            f = rng.choice(S[m - 1]['f']) if S[m - 1]['f'] else None
            if f is None:
                break
            t = b'null' if rng.random() < 0.15 else field_text(rng, S, st, f, field_value(rng, S, f, 0.4, 2)) if not f['t'] else b'1'
            ms.insert(rng.randint(0, len(ms)), member(rng, st, f['n'], t))
    return b'{' + ws(rng, st) + (ws(rng, st) + b',' + ws(rng, st)).join(ms) + ws(rng, st) + b'}'


def root_text(rng, S, st, root, v):
    t = array_text(rng, S, st, root, v) if root['r'] else obj_text(rng, S, st, root['m'], v)
    return ws(rng, st) + t + ws(rng, st)


# ------------------------------------------------------------------ damage

TOKEN = re.compile(rb'"(?:[^"\\]|\\.)*"|-?[0-9][0-9.eE+-]*|[a-zA-Z]+|[\[\]{}:,]|\s+|.', re.S)
BADNUM = [b'01', b'-', b'1.', b'.5', b'+1', b'1e', b'1e+', b'--1', b'1.2.3', b'0x10', b'1_0', b'00', b'-01', b'1e5.0', b'Infinity', b'NaN', b'-Infinity', b'1.e5', b'0e', b'- 1', b'1e1e1', b'-a', b'1a', b'1-2', b'e5', b'0.', b'-.5', b'1+1', b'0b1',
          b'1,5', b'1e-', b'9' * 25 + b'.', b'1.5f', b'00.5']
BADLIT = [b'True', b'tru', b'truee', b'TRUE', b'nul', b'nulll', b'Null', b'fals', b'falsee', b'undefined', b't', b'n', b'true1', b'null0', b'nan', b'inf', b'true_', b'fal se']
BADSTR = [b"'x'", b'"', b'"\\"', b'"\\x"', b'"\\u12"', b'"\\u123g"', b'"\\ud800"', b'"\\udc00"', b'"\\ud800x"', b'"\\ud800\\n"', b'"\\ud800\\u0041"', b'"\\ud800\\ud800"', b'"\\udc00\\ud800"', b'"\\U0041"', b'"\\a"', b'"\\0"',
          b'"\\u"', b'"\\u 041"', b'"a\x00b"', b'"\\ud83d"', b'"\\ud83d\\ude0"', b'"\\ud83d\\"', b'"\\v"', b'"\\\'"', b'"abc', b'"\\u00e"', b'"\\ud83d \\ude00"', b'"\\ud83d\\t\\ude00"', b'"\\uD83Dd"', b'"\\uDC00\\uDC00"', b'"\\u+041"', b'"\\u-041"', b'"\\u0x41"', b'"\\']
PUNCT = [b',', b':', b'{', b'}', b'[', b']', b'"', b';', b'\\', b'/', b'//c\n', b'/*c*/', b'\x00', b'\x0b', b'\x0c', b'\xa0', b'\xef\xbb\xbf', b'-', b'.', b'#', b'=', b'\xff', b'\x1f', b'\x7f', b'(', b'nul']


def tokens(text):
    return TOKEN.findall(text)


def damage(rng, text):
    """One or more small changes; the result is usually, not always, invalid."""
    toks = tokens(text)
    r = rng.random()
    if r < 0.12 and text:
        return text[:rng.randrange(len(text))]
    if not toks:
        return rng.choice(PUNCT)
    i = rng.randrange(len(toks))
    # prefer tokens that are not whitespace
    for _ in range(5):
        if toks[i].strip():
            break
        i = rng.randrange(len(toks))
    t = toks[i]
    if r < 0.24:
        del toks[i]
    elif r < 0.34:
        toks.insert(i, rng.choice(PUNCT))
    elif r < 0.40:
        toks.insert(i, rng.choice(toks))
    elif r < 0.46:
        j = rng.randrange(len(toks))
        toks[i], toks[j] = toks[j], toks[i]
    elif r < 0.58:
        nums = [k for k, x in enumerate(toks) if x[:1].isdigit() or x[:1] == b'-' or x in (b'true', b'false', b'null')]
        i = rng.choice(nums) if nums else i
        toks[i] = rng.choice(BADNUM + BADLIT)
    elif r < 0.70:
        strs = [k for k, x in enumerate(toks) if x[:1] == b'"']
        i = rng.choice(strs) if strs else i
        toks[i] = rng.choice(BADSTR)
    elif r < 0.78:
        toks[i] = rng.choice(LITS)
    elif r < 0.88:
        b = bytearray(text)
        k = rng.randrange(len(b))
        b[k] = rng.choice([0, 9, 10, 32, 34, 44, 45, 46, 48, 57, 58, 91, 92, 93, 101, 110, 123, 125, 127, 255, rng.randrange(256)])
        return bytes(b)
    elif r < 0.94:
        b = bytearray(text)
        del b[rng.randrange(len(b))]
        return bytes(b)
    else:
        k = rng.randrange(len(text) + 1)
        return text[:k] + bytes([rng.choice([0, 10, 13, 32, 34, 44, 48, 92, 93, 125, rng.randrange(256)])]) + text[k:]
    return b''.join(toks)


WRONG = {
    'i': [b'"1"', b'true', b'[]', b'{}', b'1.5', b'0.1', b'1e-1', b'99999999999999999999', b'-99999999999999999999', b'1e30', b'[1]', b'""', b'1e400', b'1e-400', b'5e-1', b'123456.7e0', b'1.0000000000000000001', b'1e4000000000', b'1e-4000000000', b'1e99999999999999999999'],
    'f': [b'"1"', b'true', b'[]', b'{}', b'1e400', b'-1e400', b'1.8e308', b'[1.5]', b'""', b'"NaN"', b'1e999999999999'],
    'b': [b'0', b'1', b'"true"', b'[]', b'{}', b'""', b'[true]'],
    's': [b'0', b'true', b'[]', b'{}', b'["x"]', b'1.5', b'false'],
    'y': [b'0', b'true', b'[]', b'{}', b'["AA=="]', b'"A"', b'"AA"', b'"AAA"', b'"AAAAA"', b'"AA=A"', b'"A==="', b'"===="', b'"AA==AAAA"', b'"AAA=AAA="', b'"A A="', b'"AA-_"', b'"AAA\\n"', b'"=AAA"', b'"AAAA="', b'"AAAA===="', b'"AAA\\u00e9"', b'"AAA\xff"', b'"AAA\\u0000"', b'" AAA"', b'"AAAA "', b'"AA*A"', b'"[AAA"', b'"AAA@"', b'"AAA`"', b'"AAA{"', b'"A=A="'],
    'm': [b'0', b'true', b'[]', b'""', b'[{}]', b'"{}"'],
    'r': [b'0', b'true', b'{}', b'""', b'"[]"', b'1', b'"x"'],
}


def wrong_for(rng, ty):
    k = ty['k']
    if ty['r'] and rng.random() < 0.4:
        return rng.choice(WRONG['r'])
    c = 'i' if k in LIM else 'f' if k in ('f32', 'f64') else 'b' if k == 'bool' else 's' if k in ('str', 'sstr') else 'y' if k == 'bytes' else 'm'
    t = rng.choice(WRONG[c])
    if k in LIM and rng.random() < 0.4:
        lo, hi = LIM[k]
        t = str(rng.choice([lo - 1, hi + 1, lo - rng.randint(1, 10**6), hi + rng.randint(1, 10**6), hi * 10, lo * 10 - 1, hi + 2**32])).encode()
        if rng.random() < 0.3:
            t = number_int(rng, Style(rng, num=1), t)
    if k == 'f32' and rng.random() < 0.3:
        t = rng.choice([b'3.5e38', b'-3.5e38', b'3.40282357e38', b'1e39', b'340282356779733661637539395458142568448'])
    if ty['r']:
        t = b'[' + t + b']'
    return t


def mistyped(rng, S, st, root, v):
    """A text in which one member has a value of the wrong kind."""
    if root['r']:
        ty = dict(root)
        parts = [elem_text(rng, S, st, ty, x) for x in v]
        w = wrong_for(rng, dict(ty, r=0))
        parts.insert(rng.randint(0, len(parts)), w)
        return ws(rng, st) + b'[' + b','.join(parts) + b']'
    m = root['m']
    return ws(rng, st) + bad_obj(rng, S, st, m, v)


def bad_obj(rng, S, st, m, v):
    fs = [(i, f) for i, f in enumerate(S[m - 1]['f']) if not f['t']]
    if not fs:
        return b'[]'
    i, f = rng.choice(fs)
    subs = [(j, g) for j, g in fs if g['k'] == 'msg' and any(not h['t'] for h in S[g['m'] - 1]['f'])]
    if subs and rng.random() < 0.5:
        i, f = rng.choice(subs)
        x = v[i] if not f['r'] else msg_value(rng, S, f['m'], 0.3, 2)
        t = bad_obj(rng, S, st, f['m'], x)
        if f['r']:
            t = b'[' + t + b']'
    else:
        t = wrong_for(rng, f)
    ms = [member(rng, st, g['n'], field_text(rng, S, st, g, x)) for j, (g, x) in enumerate(zip(S[m - 1]['f'], v)) if j != i and not g['t'] and not empty_value(S, g, x)]
    ms.insert(rng.randint(0, len(ms)), member(rng, st, f['n'], t))
    return b'{' + ws(rng, st) + (ws(rng, st) + b',' + ws(rng, st)).join(ms) + b'}'
