"""C07: unknown, transient and null members never influence the result."""
import random
from .. import env, gen, schema, codec, cases, decmc


def check(run):
    rng = random.Random(env.SEED)
    progs = codec.build_programs(run, cases.family(run))
    fac = ['pos', 'neg', 'val']
    cs = []
    for p in progs:
        n = 1200 if env.THOROUGH else 110
        for root, v, t in cases.random_docs(rng, p, n, unknown=2, null=0.3):
            cs.append(codec.D(p, root, t, fac, (0,), None, 'extra members'))
        # each transient field and each near miss of each name, with values of every kind
        for root in p.roots():
            fs = p.tla[root['m'] - 1]['f']
            known = [f['n'] for f in fs if not f['t']]
            st = gen.Style(rng, ws=0.1, esc=0.2, num=0.5)
            vals = gen.LITS + [b'[' * 200 + b']' * 200, b'{"a":' * 200 + b'1' + b'}' * 200, b'[[1,2],{"x":[true,{}]}]']
            for f in fs:
                names = [f['n']] if f['t'] else [x for x in (f['n'] + [0], f['n'] + list(b'x'), f['n'][:-1], list(bytes(f['n']).swapcase()), f['n'] + f['n'], f['n'][::-1]) if x not in known]
                for nm in names:
                    if not f['t'] and not env.THOROUGH and rng.random() < 0.6:
                        continue
                    for val in (vals if f['t'] else rng.sample(vals, 3 if env.THOROUGH else 1)):
                        cs.append(codec.D(p, root, b'{' + gen.member(rng, st, nm, val) + b'}', fac, (0,), None, 'one extra'))
                if not f['t']:
                    cs.append(codec.D(p, root, b'{' + gen.member(rng, st, f['n'], b'null') + b'}', fac, (0,), None, 'one null'))
        for root, v, t in cases.random_docs(rng, p, 200 if env.THOROUGH else 15, unknown=1.5, null=0.3):
            for _ in range(4):
                cs.append(codec.D(p, root, gen.damage(rng, t), fac, (0,), None, 'damaged'))
        if p.schema.name == 't':
            for what, n, t in cases.big_docs(rng):
                if what.split()[0] in ('unknown', 'transient', 'null'):
                    cs.append(codec.D(p, {'k': 'msg', 'r': 0, 'm': 2}, t, fac, (0,), None, 'large: ' + what))
                    cs.append(codec.D(p, {'k': 'msg', 'r': 0, 'm': 2}, cases.spoiled(rng, t), fac, (0,), None, 'large: ' + what))
    # deep nesting, up to 500 levels
    for p in progs[:2]:
        for root in p.roots()[:2]:
            for n in ([1, 2, 50, 100, 255, 256, 257, 400, 499, 500] if not env.THOROUGH else list(range(1, 501, 7)) + [498, 499, 500]):
                for a, b in ((b'[', b']'), (b'{"a":', b'}'), (b'[{"b":', b'}]'), (b'[1,', b',2]'), (b'{"x":null,"y":', b',"z":[]}')):
                    k = n // 2 if a == b'[{"b":' else n
                    if k == 0:
                        continue
                    cs.append(codec.D(p, root, b'{"?":' + a * k + b'0' + b * k + b'}', fac, (0,), None, 'nested'))
                    if n in (1, 50, 256, 500):
                        cs.append(codec.D(p, root, b'{"?":' + a * k + b'0' + b * (k - 1) + b'}', fac, (0,), None, 'nested, not closed'))
            # many of them in a row: the depth has to be given back
            for n in (5, 600, 3000):
                cs.append(codec.D(p, root, b'{' + b','.join(b'"?%d":[[{"k":[%d]}]]' % (i, i) for i in range(n)) + b'}', fac, (0,), None, 'many'))
            cs.append(codec.D(p, root, b'{"?":[' + b','.join([b'[[]]', b'{"a":{}}'] * 700) + b']}', fac, (0,), None, 'wide'))
    run.sample(codec.show(rng.choice(cs)))
    run.sample(codec.show(rng.choice(cs)))
    run.sample(codec.show(rng.choice(cs)))
    codec.run_and_judge(run, cs)
    decmc.check(run, progs, ['pos', 'neg', 'val'])
