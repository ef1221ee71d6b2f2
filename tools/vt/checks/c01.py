"""C01: serialised messages read back equal."""
import random
from .. import env, gen, schema, codec, cases


def check(run):
    rng = random.Random(env.SEED)
    progs = codec.build_programs(run, cases.family(run))
    cs = []
    par = [(0, 0), (1, 0), (0, 1), (1, 1)]
    for p in progs:
        if p.schema.name.startswith('u'):
            root, vals = cases.systematic_values(p)
            for j, v in enumerate(vals):
                for ea, sn in (par if env.THOROUGH else [par[j % 4]]):
                    cs.append(codec.R(p, root, v, ea, sn, 'edge'))
        for root in p.roots():
            v = gen.default(p.tla, root['m'])
            for ea, sn in par:
                cs.append(codec.R(p, root, v, ea, sn, 'empty'))
        for j, (root, v) in enumerate(cases.random_values(rng, p, 2500 if env.THOROUGH else 170)):
            ea, sn = rng.choice(par)
            cs.append(codec.R(p, root, v, ea, sn, 'random'))
        # values that cannot be written: NaN, infinities, malformed text
        for root, v in cases.random_values(rng, p, 300 if env.THOROUGH else 20, 0.3):
            ea, sn = rng.choice(par)
            cs.append(codec.R(p, root, v, ea, sn, 'unwritable'))
    for p in progs:
        if p.schema.name in ('t', 't1', 't2', 't0'):
            for v in cases.big_values(rng):
                cs.append(codec.R(p, {'k': 'msg', 'r': 0, 'm': 2}, v, rng.randint(0, 1), rng.randint(0, 1), 'large'))
    # every code point
    u = progs[0] if progs else None
    if u is not None:
        root, fs = cases.scalars_of(u)
        i = next(j for j, f in enumerate(fs) if f['k'] == 'str' and not f['r'] and not f['t'])
        cps = [c for c in range(0x110000) if not 0xD800 <= c <= 0xDFFF]
        if not env.THOROUGH:
            cps = cps[:0x900] + cps[0x900 + env.SEED % 41::41]
        step = 64
        for a in range(0, len(cps), step):
            t = list(b''.join(gen.utf8(c) for c in cps[a:a + step]))
            for ea in (0, 1):
                cs.append(codec.R(u, root, cases.put(u, root, i, [t]), ea, 0, 'code points'))
        # random numbers
        for k in ('f64', 'f32'):
            i = next(j for j, f in enumerate(fs) if f['k'] == k and f['r'] and not f['t'])
            for _ in range(3000 if env.THOROUGH else 120):
                cs.append(codec.R(u, root, cases.put(u, root, i, [gen.float_value(rng, k) for _ in range(24)]), 0, 0, 'numbers'))
    run.sample(codec.show(rng.choice(cs)))
    run.sample(codec.show(rng.choice(cs)))
    run.sample(codec.show(rng.choice(cs)))
    codec.run_and_judge(run, cs)
