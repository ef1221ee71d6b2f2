"""C19: bytes fields are padded base64 in both directions."""
import random, base64
from .. import env, gen, schema, codec, cases
from ..schema import Schema, Msg, Field


def schemas():
    """Bytes in every company: alone, with other types, repeated, nested."""
    out = [Schema([Msg('B', [Field('y', 'bytes', 1)])], {}, 'alone'),
           Schema([Msg('B', [Field('y', 'bytes', 1, rep=True)])], {}, 'rep'),
           Schema([Msg('B', [Field('y', 'bytes', 1), Field('z', 'bytes', 2, rep=True)])], {'cpp_use_lists': True}, 'lists'),
           Schema([Msg('B', [Field('y', 'bytes', 1), Field('s', 'string', 2), Field('z', 'bytes', 3, rep=True), Field('n', 'double', 4)])], {}, 'all'),
           Schema([Msg('In', [Field('y', 'bytes', 1)]), Msg('Out', [Field('i', 'message', 1, msg=0), Field('r', 'message', 2, rep=True, msg=0)])], {'obfuscate_strings': True}, 'nested'),
           Schema([Msg('B', [Field('y', 'bytes', 1, json='data'), Field('t', 'bytes', 2, transient=True), Field('i', 'int32', 3)])], {'number_names': True}, 'num')]
    return out


def check(run):
    rng = random.Random(env.SEED)
    progs = codec.build_programs(run, schemas())
    fw, fr = ['acc', 'val'], ['pos', 'neg', 'val']
    cs = []
    lengths = list(range(0, 70)) + ([255, 256, 257, 1000, 4096] if not env.THOROUGH else list(range(70, 300)) + [1000, 4095, 4096, 4097, 65536])
    chars = list(range(256))
    for p in progs:
        for root in p.roots():
            fs = p.tla[root['m'] - 1]['f']
            for i, f in enumerate(fs):
                sub = None
                if f['k'] == 'msg':
                    sub = f
                elif f['k'] != 'bytes' or f['t']:
                    continue

                def wrap(b):
                    if sub is not None:
                        return [[b]] if f['r'] else [b]
                    return [b, b[:3], []] if f['r'] else b

                name = bytes(f['n'])
                inner = bytes(p.tla[sub['m'] - 1]['f'][0]['n']) if sub is not None else None

                def text(q):
                    t = q
                    if sub is not None:
                        t = b'{"' + inner + b'":' + t + b'}'
                    if f['r']:
                        t = b'[' + t + b']'
                    return b'{"' + name + b'":' + t + b'}'
                full = p.schema.name in ('alone', 'all')
                for n in (lengths if full else lengths[:20]):
                    pats = [[rng.randrange(256) for _ in range(n)]]
                    if n <= 20:
                        pats += [[0] * n, [255] * n, [(n * 7 + j) % 256 for j in range(n)], [251 - j for j in range(n)]]
                    for b in pats:
                        v = cases.put(p, root, i, wrap(b))
                        cs.append(codec.S(p, root, v, rng.randint(0, 1), rng.randint(0, 1), fw, (0,), 'length'))
                        e = base64.b64encode(bytes(b))
                        cs.append(codec.D(p, root, text(b'"' + e + b'"'), fr, (0,), None, 'length'))
                        # one character less or more, padding removed, padding added
                        for q in ({e[:-1], e + b'A', e + b'=', e.rstrip(b'='), e[1:], e[:1] + b'=' + e[2:] if n else b'=', e + e} if n < 16 else {e[:-1], e + b'='}):
                            cs.append(codec.D(p, root, text(b'"' + q + b'"'), fr, (0,), None, 'damaged'))
                # every character in every position of a group
                if full or env.THOROUGH:
                    for c in chars:
                        ch = bytes([c]) if c not in (34, 92) and c >= 32 else b'\\u%04x' % c
                        for q in ((b'%sAAA', b'A%sAA', b'AA%sA', b'AAA%s', b'AAA%sAAAA', b'A%s==', b'AA%s=', b'AA=%s') if p.schema.name == 'alone' else (b'QUJ%s', b'%sUJD')):
                            cs.append(codec.D(p, root, text(b'"' + q % ch + b'"'), fr, (0,), None, 'character'))
                for q in (b'null', b'""', b'[]', b'0', b'true', b'"===="', b'"A"', b'"AA"', b'"AAA"', b'"="', b'"=="', b'"AAAA===="', b'"AA==AA=="', b'"QUI=QUI="', b'"\\u0041AAA"', b'"AA\\u003d="', b'"AAAA\\n"', b'"AA\\/A"', b'"\\u00e9AAA"', b'"QUJD'):
                    cs.append(codec.D(p, root, text(q), fr, (0,), None, 'special'))
            for _ in range(300 if env.THOROUGH else 20):
                v = gen.root_value(rng, p.tla, root, 0.7)
                cs.append(codec.S(p, root, v, rng.randint(0, 1), rng.randint(0, 1), fw, (0,), 'random'))
                cs.append(codec.D(p, root, gen.root_text(rng, p.tla, gen.Style(rng), root, v), fr, (0,), None, 'random'))
    # all symbols: every pair of adjacent values
    if progs:
        p = progs[0]
        root = p.roots()[0]
        for a in range(0, 256, 1 if env.THOROUGH else 4):
            b = []
            for c in range(0, 256, 3 if not env.THOROUGH else 1):
                b += [a, c]
            cs.append(codec.S(p, root, cases.put(p, root, 0, b), 0, 0, fw, (0,), 'pairs'))
            cs.append(codec.D(p, root, b'{"y":"' + base64.b64encode(bytes(b)) + b'"}', fr, (0,), None, 'pairs'))
        for n in cases.sizes(rng, 8):
            b = [(i * 73 + i // 251) % 256 for i in range(n)]
            cs.append(codec.S(p, root, cases.put(p, root, 0, b), 0, 0, fw, (0,), 'large'))
            e = base64.b64encode(bytes(b))
            cs.append(codec.D(p, root, b'{"y":"' + e + b'"}', fr, (0,), None, 'large'))
            k = rng.randrange(len(e))
            cs.append(codec.D(p, root, b'{"y":"' + e[:k] + b'-' + e[k + 1:] + b'"}', fr, (0,), None, 'large, damaged'))
    run.sample(codec.show(rng.choice(cs)))
    run.sample(codec.show(rng.choice(cs)))
    run.sample(codec.show(rng.choice(cs)))
    codec.run_and_judge(run, cs)
