"""C06: failures carry the right code, position and message."""
import random
from .. import env, gen, schema, codec, cases, decmc
from . import c05


def check(run):
    rng = random.Random(env.SEED)
    progs = codec.build_programs(run, cases.family(run))
    fac = ['err', 'par', 'chan']
    cs = []
    ch = (0, 2, 3, 5, 7, 8)
    for p in progs:
        for root, v, t in cases.damaged_docs(rng, p, 2500 if env.THOROUGH else 200, ws=0.3):
            cs.append(codec.D(p, root, t, fac, ch, None, 'damaged'))
        for root, v, t in cases.random_docs(rng, p, 200 if env.THOROUGH else 15, ws=0.3):
            cs.append(codec.D(p, root, t, fac, ch, None, 'valid'))
        for root, v, t in cases.random_docs(rng, p, 12 if env.THOROUGH else 2, ws=0.3):
            t = t[:400]
            for i in range(len(t)):
                cs.append(codec.D(p, root, t[:i], fac, (0, 7, 8), None, 'cut'))
        if p.schema.name in ('u', 't'):
            for root, t in cases.one_field_docs(rng, p, lambda f: c05.wrong_values(rng, f)):
                if p.schema.name == 't' or env.THOROUGH or rng.random() < 0.35:
                    cs.append(codec.D(p, root, rng.choice([b'', b'\n', b' \n\n  ', b'\r\n\t']) + t, fac, (0, 7, 8), None, 'wrong value'))
        for root, v in cases.random_values(rng, p, 300 if env.THOROUGH else 30, 0.3):
            cs.append(codec.S(p, root, v, 1, rng.randint(0, 1), ['err', 'par'], (0, 6, 7, 8, 9, 10), 'unwritable'))
        for root, v in cases.random_values(rng, p, 100 if env.THOROUGH else 10):
            cs.append(codec.S(p, root, v, rng.randint(0, 1), rng.randint(0, 1), ['err', 'par', 'chan'], (0, 6, 7, 8, 9, 10), 'writable'))
    t = next((p for p in progs if p.schema.name == 't'), None)
    if t is not None:
        root = {'k': 'msg', 'r': 0, 'm': 2}
        alpha = [b'{', b'}', b'[', b']', b':', b',', b'"i"', b'"s"', b'"a"', b'"o"', b'"?"', b'"y"', b'"l"', b'"b"', b'1', b'true', b'null', b'""', b' ', b'\n', b'-', b'0', b'"AA=="', b'"x"', b'"\n', b'1.5', b'\\', b'"']
        for _ in range(60000 if env.THOROUGH else 1200):
            s = b'{' + b''.join(rng.choice(alpha) for _ in range(rng.randint(1, 12)))
            cs.append(codec.D(t, root, s, fac, (0, 7, 8), None, 'tokens'))
        for what, n, s in cases.big_docs(rng):
            cs.append(codec.D(t, root, cases.spoiled(rng, s), fac, (0, 7), None, 'large: ' + what))
        for root, s in cases.byte_edits(t, rng, range(256) if env.THOROUGH else rng.sample(cases.EDGE_BYTES, 18)):
            cs.append(codec.D(t, root, s, fac, (0,), None, 'one byte'))
    run.sample(codec.show(rng.choice(cs)))
    run.sample(codec.show(rng.choice(cs)))
    run.sample(codec.show(rng.choice(cs)))
    codec.run_and_judge(run, cs)
    decmc.check(run, progs, ['err'])
