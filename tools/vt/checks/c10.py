"""C10: deserialising into a used object merges."""
import random
from .. import env, gen, schema, codec, cases


def check(run):
    rng = random.Random(env.SEED)
    progs = codec.build_programs(run, cases.family(run))
    fac = ['pos', 'val']
    cs = []
    for p in progs:
        n = 2500 if env.THOROUGH else 220
        for root, v, t in cases.random_docs(rng, p, n, dup=0.4):
            init = gen.root_value(rng, p.tla, root, rng.choice([0.3, 0.6, 1.0]))
            cs.append(codec.D(p, root, t, fac, (0,), init if rng.random() < 0.85 else None, 'merge'))
        # each field alone over a full object
        for root in p.roots():
            fs = p.tla[root['m'] - 1]['f']
            st = gen.Style(rng, ws=0, esc=0, num=0)
            for i, f in enumerate(fs):
                init = gen.msg_value(rng, p.tla, root['m'], 1.0 if len(fs) < 20 else 0.4, 2)
                x = gen.field_value(rng, p.tla, f, 0.5, 1)
                init[i] = gen.field_value(rng, p.tla, f, 0.8, 1)
                for val in ([gen.field_text(rng, p.tla, st, f, x), b'null'] + ([b'[]', b'[null]'] if f['r'] else []) + ([b'{}'] if f['k'] == 'msg' and not f['r'] else []) + ([b'""'] if f['k'] in ('str', 'bytes') and not f['r'] else [])):
                    m = gen.member(rng, st, f['n'], val)
                    cs.append(codec.D(p, root, b'{' + m + b'}', fac, (0,), init, 'one field'))
                    cs.append(codec.D(p, root, b'{' + m + b',' + m + b'}', fac, (0,), init, 'twice'))
                    m2 = gen.member(rng, st, f['n'], gen.field_text(rng, p.tla, st, f, gen.field_value(rng, p.tla, f, 0.5, 2)))
                    cs.append(codec.D(p, root, b'{' + m + b',' + m2 + b'}', fac, (0,), None, 'two values'))
                    cs.append(codec.D(p, root, b'{' + m2 + b',' + m + b'}', fac, (0,), None, 'two values'))
        if p.schema.name in ('t', 't0'):
            vs = list(cases.big_values(rng))
            for what, n, t in cases.big_docs(rng):
                if what in ('string', 'numbers', 'elements', 'messages', 'bytes', 'again', 'merged', 'null members'):
                    cs.append(codec.D(p, {'k': 'msg', 'r': 0, 'm': 2}, t, fac, (0,), rng.choice(vs), 'large: ' + what))
    run.sample(codec.show(rng.choice(cs)))
    run.sample(codec.show(rng.choice(cs)))
    run.sample(codec.show(rng.choice(cs)))
    codec.run_and_judge(run, cs)
