"""C02: serialised output is well-formed JSON holding exactly the present fields."""
import random
from .. import env, gen, schema, codec, cases

PAR = [(0, 0), (1, 0), (0, 1), (1, 1)]


def check(run):
    rng = random.Random(env.SEED)
    progs = codec.build_programs(run, cases.family(run))
    fac = ['acc', 'val']
    cs = []
    for p in progs:
        big = p.schema.name.startswith('u')
        if big:
            root, vals = cases.systematic_values(p)
            for j, v in enumerate(vals):
                cs.append(codec.S(p, root, v, PAR[j % 4][0], 0, fac, (0, 7), 'edge'))
        for root in p.roots():
            for ea, sn in PAR:
                cs.append(codec.S(p, root, gen.default(p.tla, root['m']), ea, sn, fac, (0, 7), 'empty'))
            # each field alone, and each field missing, with serialize_null
            full = gen.msg_value(rng, p.tla, root['m'], 1.0, 2)
            dflt = gen.default(p.tla, root['m'])
            for i, f in enumerate(p.tla[root['m'] - 1]['f']):
                one = cases.put(p, root, i, gen.field_value(rng, p.tla, f, 0.5, 2))
                most = [x for x in full]
                most[i] = dflt[i]
                for v in (one, most):
                    cs.append(codec.S(p, root, v, 0, 1, fac, (0,), 'presence'))
                    if not big or env.THOROUGH:
                        cs.append(codec.S(p, root, v, 0, 0, fac, (0,), 'presence'))
                # unrepresentable numbers in every position
                if f['k'] in ('f32', 'f64'):
                    for b in gen.nonfinite(f['k']):
                        v = [x for x in dflt]
                        v[i] = [gen.float_value(rng, f['k']), b] if f['r'] else [b]
                        cs.append(codec.S(p, root, v, 0, rng.randint(0, 1), fac + ['err'], (0, 7), 'not finite'))
        for root, v in cases.random_values(rng, p, 1500 if env.THOROUGH else 90):
            ea, sn = rng.choice(PAR)
            cs.append(codec.S(p, root, v, ea, sn, fac, (0,), 'random'))
        for root, v in cases.random_values(rng, p, 400 if env.THOROUGH else 30, 0.25):
            ea, sn = rng.choice(PAR)
            cs.append(codec.S(p, root, v, ea, sn, fac, (0,), 'unwritable'))
        if p.schema.name in ('t', 't0', 't1', 't2'):
            for v in cases.big_values(rng):
                ea, sn = rng.choice(PAR)
                cs.append(codec.S(p, {'k': 'msg', 'r': 0, 'm': 2}, v, ea, sn, fac, (0,), 'large'))
    u = progs[0] if progs else None
    if u is not None:
        root, fs = cases.scalars_of(u)
        # numbers: every one has to be written so that it is read back exactly
        for k in ('f64', 'f32'):
            i = next(j for j, f in enumerate(fs) if f['k'] == k and f['r'] and not f['t'])
            for _ in range(1500 if env.THOROUGH else 40):
                cs.append(codec.S(u, root, cases.put(u, root, i, [gen.float_value(rng, k) for _ in range(16)]), 0, 0, fac, (0,), 'numbers'))
        for k in ('i32', 'i64', 'u32', 'u64'):
            i = next(j for j, f in enumerate(fs) if f['k'] == k and f['r'] and not f['t'])
            for _ in range(200 if env.THOROUGH else 10):
                cs.append(codec.S(u, root, cases.put(u, root, i, [gen.digits(gen.int_value(rng, k)) for _ in range(20)]), 0, 0, fac, (0,), 'numbers'))
    run.sample(codec.show(rng.choice(cs)))
    run.sample(codec.show(rng.choice(cs)))
    run.sample(codec.show(rng.choice(cs)))
    codec.run_and_judge(run, cs)
