"""C05: malformed or mistyped JSON is rejected."""
import random
from .. import env, gen, schema, codec, cases, decmc


def wrong_values(rng, f):
    out = []
    c = 'i' if f['k'] in gen.LIM else 'f' if f['k'] in ('f32', 'f64') else 'b' if f['k'] == 'bool' else 's' if f['k'] == 'str' else 'y' if f['k'] == 'bytes' else 'm'
    w = list(gen.WRONG[c]) + gen.BADNUM + gen.BADLIT + gen.BADSTR
    if f['k'] in gen.LIM:
        lo, hi = gen.LIM[f['k']]
        for x in (lo - 1, hi + 1, lo - 10, hi + 10, lo * 10, hi * 10, hi + 2**32, hi + 2**64, lo - 2**32, -2**63 - 1, 2**64, 2**63, -2**31 - 1, 2**32, 2**31, -1, 10**19, 10**20, 10**25):
            if not lo <= x <= hi:
                w.append(str(x).encode())
                w.append(gen.number_int(rng, gen.Style(rng, num=1), gen.digits(x)))
    if f['k'] == 'f32':
        w += [b'3.5e38', b'1e39', b'-1e39', b'340282356779733661637539395458142568448', b'3.40282357e38']
    if f['r']:
        return gen.WRONG['r'] + [b'[' + x + b']' for x in w] + [b'[,]', b'[1,]', b'[,1]', b'[1,,1]', b'[1 1]', b'[1:1]', b'["a""b"]', b'[', b']', b'[[]', b'[true,]', b'[{},]', b'[null,]', b'["",]']
    return w


def check(run):
    rng = random.Random(env.SEED)
    progs = codec.build_programs(run, cases.family(run))
    fac = ['neg']
    cs = []
    for p in progs:
        for root, v, t in cases.damaged_docs(rng, p, 2500 if env.THOROUGH else 200):
            cs.append(codec.D(p, root, t, fac, (0,), None, 'damaged'))
        # cut short at every byte
        for root, v, t in cases.random_docs(rng, p, 12 if env.THOROUGH else 2, ws=0.1):
            t = t[:400]
            for i in range(len(t)):
                cs.append(codec.D(p, root, t[:i], fac, (0, 2), None, 'cut'))
        if p.schema.name in ('u', 't'):
            for root, t in cases.one_field_docs(rng, p, lambda f: wrong_values(rng, f)):
                cs.append(codec.D(p, root, t, fac, (0,), None, 'wrong value'))
        if p.schema.name in ('u', 't', 'm'):
            root = p.roots()[1 if p.schema.name == 'u' else 0]
            # malformed values in skipped members, alone and nested
            for w in gen.BADNUM + gen.BADLIT + gen.BADSTR + [b'{', b'}', b'[', b']', b'{"a"}', b'{"a":}', b'{"a":1,}', b'{,}', b'{:1}', b'{1:1}', b'{a:1}', b'[1,]', b'[,]', b'[1 2]', b'{"a" 1}', b'{"a":1 "b":2}',
                                                             b'{"a":1;}', b'{"a"=1}', b'', b',', b':', b'\x00', b'{"a":[}]', b'[{]}', b'{null:1}', b'{"a":1,,"b":2}', b'[1,,2]', b'{"a":1]', b'[1}', b'{"a",1}', b'{true:1}', b'{[]:1}', b'{{}:1}', b"{'a':1}"]:
                for pre, post in ((b'{"?":', b'}'), (b'{"?":[', b']}'), (b'{"?":{"x":', b'}}'), (b'{"?":[1,{"y":[', b',2]}]}'), (b'{"?":[[],', b']}')):
                    cs.append(codec.D(p, root, pre + w + post, fac, (0,), None, 'skipped'))
            for w in [b'', b' ', b'\n', b'null', b'true', b'1', b'"{}"', b'[]', b'[{}]', b'x{}', b',{}', b'}', b'{', b'{{}}', b'{}}'[:1], b'\xef\xbb\xbf{}', b'/**/{}', b'\x00{}', b'\x0b{}', b'\x0c{}', b'\xa0{}', b'{"', b'{,}', b'{"a"}', b'{:}', b'({})', b'-{}',
                      b'{1:2}', b'{null:null}', b'{"a":1,}', b'{"a":1,,}', b'{"a":1 "b":1}', b'{"a" "b"}', b'{a:1}', b"{'a':1}", b'{"a":1;"b":2}', b'{"a"::1}', b'{"a",1}', b'{"a":1:2}', b'{{}:1}']:
                cs.append(codec.D(p, root, w, fac, (0, 2, 3), None, 'start'))
    # short texts over the bytes that matter
    t = next((p for p in progs if p.schema.name == 't'), None)
    if t is not None:
        root = {'k': 'msg', 'r': 0, 'm': 2}
        alpha = [b'{', b'}', b'[', b']', b':', b',', b'"i"', b'"s"', b'"a"', b'"o"', b'"?"', b'"y"', b'"l"', b'"b"', b'1', b'true', b'null', b'""', b' ', b'-', b'0', b'"AA=="', b'"x"', b'1.5', b'\\', b'"']
        for _ in range(60000 if env.THOROUGH else 1500):
            s = b'{' + b''.join(rng.choice(alpha) for _ in range(rng.randint(1, 12)))
            cs.append(codec.D(t, root, s, fac, (0,), None, 'tokens'))
        for what, n, s in cases.big_docs(rng):
            cs.append(codec.D(t, root, cases.spoiled(rng, s), fac, (0,), None, 'large: ' + what))
        for root, s in cases.byte_edits(t, rng, range(256) if env.THOROUGH else None):
            cs.append(codec.D(t, root, s, ['neg', 'pos', 'val'], (0,), None, 'one byte'))
    run.sample(codec.show(rng.choice(cs)))
    run.sample(codec.show(rng.choice(cs)))
    run.sample(codec.show(rng.choice(cs)))
    codec.run_and_judge(run, cs)
    decmc.check(run, progs, ['neg'])
