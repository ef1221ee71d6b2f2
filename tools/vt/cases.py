"""Families of codec cases shared by the checks."""
import random
from . import gen, schema
from .codec import D, S, R

M = 'message'


def scalars_of(p):
    """(root, path to a singular field, path to a repeated field) for every kind: the largest message of the program."""
    big = max(range(len(p.schema.msgs)), key=lambda i: len(p.schema.msgs[i].fields))
    return {'k': 'msg', 'r': 0, 'm': big + 1}, p.tla[big]['f']


def put(p, root, i, v):
    """A message in which only field i is present."""
    x = gen.default(p.tla, root['m'])
    x[i] = v
    return x


def edge_values(k):
    if k in gen.LIM:
        return [gen.digits(x) for x in gen.int_edges(k)]
    if k in ('f32', 'f64'):
        return gen.float_edges(k)
    if k == 'bool':
        return [0, 1]
    if k in ('str', 'sstr'):
        r = [[], list(bytes(range(128)))]
        r += [list(b'x' + gen.utf8(c) + b'y') for c in gen.CP_EDGES] + [list(gen.utf8(c)) for c in gen.CP_EDGES]
        return r
    return [[(i * 37 + n) % 256 for i in range(n)] for n in list(range(0, 20)) + [63, 64, 65, 255, 256, 257]] + [[255] * 6, [0] * 5, [251, 239, 190]]


def systematic_values(p, root=None, kinds=None, per_elem=6):
    """For every field: every edge value alone; arrays of edge values."""
    if root is None:
        root, _ = scalars_of(p)
    out = []
    for i, f in enumerate(p.tla[root['m'] - 1]['f']):
        if f['k'] == 'msg' or (kinds and f['k'] not in kinds):
            continue
        ev = edge_values(f['k'])
        if f['r']:
            for j in range(0, len(ev), per_elem):
                out.append(put(p, root, i, [[e] if f['k'] == 'str' else e for e in ev[j:j + per_elem]]))
            if f['k'] == 'str':
                out.append(put(p, root, i, [[], [[]], []]))
        else:
            for e in ev:
                out.append(put(p, root, i, e if f['k'] == 'bytes' else [e]))
    return root, out


def random_values(rng, p, n, bad=0.0, roots=None):
    roots = roots or p.roots()
    for _ in range(n):
        root = rng.choice(roots)
        yield root, gen.root_value(rng, p.tla, root, rng.choice([0.05, 0.15, 0.3, 0.6, 1.0 if len(p.tla[root['m'] - 1]['f']) < 12 else 0.3]), bad)


def random_docs(rng, p, n, roots=None, **style):
    """(root, value, text)"""
    for _ in range(n):
        root = rng.choice(roots or p.roots())
        v = gen.root_value(rng, p.tla, root, rng.choice([0.05, 0.15, 0.3, 0.5]))
        st = gen.Style(rng, **style)
        yield root, v, gen.root_text(rng, p.tla, st, root, v)


def damaged_docs(rng, p, n, roots=None, **style):
    for root, v, t in random_docs(rng, p, n, roots, **style):
        r = rng.random()
        if r < 0.35:
            t = gen.mistyped(rng, p.tla, gen.Style(rng), root, v)
        else:
            for _ in range(1 if rng.random() < 0.8 else 2):
                t = gen.damage(rng, t)
        yield root, v, t


def one_field_docs(rng, p, texts_for, root=None, plain=False):
    """Objects with a single member: texts_for(field) gives the value texts."""
    if root is None:
        root, _ = scalars_of(p)
    st = gen.Style(rng, ws=0, esc=0, num=0)
    for f in p.tla[root['m'] - 1]['f']:
        if f['t']:
            continue
        for t in texts_for(f):
            yield root, b'{' + gen.string(rng, st, f['n']) + b':' + t + b'}'


# every byte class with the bytes next to it
EDGE_BYTES = sorted({x + d for lo, hi in ((48, 57), (65, 70), (65, 90), (97, 102), (97, 122)) for x in (lo, hi) for d in (-1, 0, 1)} |
                    {0, 1, 8, 9, 10, 11, 12, 13, 14, 31, 32, 33, 34, 35, 36, 39, 40, 43, 44, 45, 46, 47, 60, 61, 92, 101, 110, 116, 117, 127, 128, 143, 160, 191, 192, 224, 240, 255})

EDIT_DOCS = [b'{"i":-105,"b":true,"o":null}', b'{"s":"a\\u0e9Fb","b":false}', b'{"s":"\\uD83d\\uDe0a!"}', b'{"s":"\xc3\xa9\\n\\"/\\/"}', b'{"f":-1.50e+3 , "i":2E1}',
             b'{"y":"QUJD","y":"AA=="}', b'{"a":[1,-2],"l":[{"x":3},{}]}', b'{"?":[{"z":1.5e0},"q\\u00fF",null],"t":1}', b' {\n"o" : {"x":\t7}\r}', b'{"":{"":[[]]},"i":0}']


def byte_edits(p, rng, bytes_for=None):
    """Every text that differs from one of a few texts in one byte (schema.small)."""
    root = {'k': 'msg', 'r': 0, 'm': 2}
    for t in EDIT_DOCS:
        for i in range(len(t) + 1):
            for b in (bytes_for or EDGE_BYTES):
                if i < len(t) and b != t[i]:
                    yield root, t[:i] + bytes([b]) + t[i + 1:]
            for b in ([rng.choice(EDGE_BYTES)] if bytes_for is None else EDGE_BYTES):
                yield root, t[:i] + bytes([b]) + t[i:]
            yield root, t[:i] + t[i + 1:]


def family(run, quick_random=3, thorough_random=24, many=True):
    """The schemas of a codec check."""
    from . import env
    r = random.Random(env.SEED * 7919 + 17)
    ss = [schema.universal({}, 'u'), schema.small({}, 't')]
    opts = [{'cpp_use_lists': True}, {'number_names': True, 'obfuscate_strings': True}, {'obfuscate_strings': True}]
    if env.THOROUGH:
        opts = [{k: True for k, b in zip(('number_names', 'obfuscate_strings', 'cpp_use_lists'), (1, 2, 4)) if m & b} for m in range(1, 8)]
        for i, o in enumerate(opts):
            ss.append(schema.universal(o, 'u%d' % (i + 1)))
    else:
        ss.append(schema.small(opts[2], 't2'))
        ss.append(schema.small(opts[1], 't1'))
        ss.append(schema.small(opts[0], 't0'))
    if many:
        ss.append(schema.many('m'))
    for i in range(thorough_random if env.THOROUGH else quick_random):
        ss.append(schema.random_schema(r, 'r%d' % i))
    return ss


SIZES = [127, 128, 129, 255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025, 2048, 4095, 4096, 4097, 8191, 8192, 8193, 16384, 32767, 32768, 32769, 65535, 65536, 65537, 70001]


def sizes(rng, n=6):
    """Lengths at which implementations change their ways: beyond 65536, two medium, some near."""
    from . import env
    if env.THOROUGH:
        return SIZES
    return [SIZES[-1]] + rng.sample(SIZES[10:-3], 2) + rng.sample(SIZES[:10], max(n - 3, 0))


def big_docs(rng):
    """(what, size, text) of valid texts for schema.small that are large in one direction."""
    word = lambda n: bytes(97 + (i * 7 + i // 26) % 26 for i in range(n))
    dims = {
        'string': lambda n: b'{"s":"%s"}' % word(n),
        'escapes': lambda n: b'{"s":"%s"}' % b''.join([b'\\u00e9', b'\\n', b'\\/', b'\\ud83d\\ude00', b'x'][i % 5] for i in range(n // 5 + 1)),
        'utf8': lambda n: b'{"s":"%s"}' % ('\u00e9\u20ac\U0001f600'.encode() * (n // 9 + 1)),
        'spaces': lambda n: b'{' + b' ' * n + b'"i":1}',
        'lines': lambda n: b'{"i":' + b'\n' * n + b'1}',
        'blanks': lambda n: b'{"i"' + b' \t\r\n' * (n // 4) + b':1}',
        'before': lambda n: b'\n \t' * (n // 3) + b'{"i":1}',
        'numbers': lambda n: b'{"a":[%s]}' % b','.join(b'%d' % ((i * i) % 2003 - 999) for i in range(n // 4 + 1)),
        'elements': lambda n: b'{"a":[%s]}' % b','.join(b'%d' % (i % 10) for i in range(n)),
        'messages': lambda n: b'{"l":[%s]}' % b','.join(b'{"x":%d}' % i if i % 3 else b'null' for i in range(n // 8 + 1)),
        'zeros': lambda n: b'{"i":12.' + b'0' * n + b'}',
        'fraction': lambda n: b'{"f":%s0%s1}' % ((b'0.', b'0' * min(n, 4000)) if n % 2 else (b'-0.5', b'0' * min(n, 4000))),
        'exponent': lambda n: b'{"i":3e' + b'0' * n + b'2}',
        'bytes': lambda n: b'{"y":"%s"}' % __import__('base64').b64encode(word(n)),
        'unknown string': lambda n: b'{"?":"%s","i":1}' % word(n),
        'unknown name': lambda n: b'{"%s":[1,{}],"i":1}' % word(n),
        'unknown array': lambda n: b'{"?":[%s],"i":1}' % b','.join([b'1', b'{}', b'"x"', b'[]', b'null'][i % 5] for i in range(n // 4)),
        'unknown number': lambda n: b'{"?":1%s,"i":1}' % (b'0' * n),
        'unknown members': lambda n: b'{' + b''.join(b'"u%d":%d,' % (i, i) for i in range(n // 10)) + b'"i":1}',
        'again': lambda n: b'{' + b','.join(b'"i":%d' % i for i in range(n // 8 + 1)) + b'}',
        'merged': lambda n: b'{' + b','.join(b'"o":{"x":%d},"a":[%d]' % (i, i) for i in range(n // 24 + 1)) + b'}',
        'transient': lambda n: b'{"t":"%s","i":1}' % word(n),
        'null members': lambda n: b'{' + b'"o":null,' * (n // 9) + b'"i":1}',
    }
    for what, f in dims.items():
        ns = sizes(rng, 4)
        for n in ns:
            yield what, n, f(n)


def spoiled(rng, t):
    """The text with an error behind everything else."""
    return t[:-1] + rng.choice([b',"b":x}', b',\n"b" 1}', b',"i":2147483648}', b',"?":[1,]}', b',}', b'', b']', b',"s":"\\ud800"}', b',"y":"A"}', b',"a":1}'])


def big_values(rng):
    """Values of schema.small's message that are large in one direction."""
    base = lambda **k: [k.get('i', []), k.get('s', []), k.get('a', []), k.get('o', [[]]), k.get('b', []), k.get('y', []), k.get('t', []), k.get('l', []), k.get('f', [])]
    for n in sizes(rng, 5):
        yield base(s=[[97 + i % 26 for i in range(n)]])
        yield base(s=[(list('\u00e9\u20ac"\\\x01\U0001f600'.encode()) * n)[:12 * (n // 12)]])
        yield base(y=[(i * 31 + i // 256) % 256 for i in range(n)])
        yield base(a=[gen.digits(i * 65537 % 2**32 - 2**31) for i in range(n // 4)])
        yield base(a=[gen.digits(i % 10) for i in range(n)])
        yield base(l=[[gen_opt(i)] for i in range(n // 4)], i=[gen.digits(5)])


def gen_opt(i):
    return [gen.digits(i)] if i % 3 else []
