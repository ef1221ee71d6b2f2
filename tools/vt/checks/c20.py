"""C20: top-level arrays behave like array fields."""
import random
from .. import env, gen, schema, codec, cases
from . import c04, c05


def check(run):
    rng = random.Random(env.SEED)
    ss = cases.family(run, 2, 10, many=False)
    progs = codec.build_programs(run, [s for s in ss if s.needs()['HAS_ARRAY']])
    fr = ['pos', 'neg', 'val', 'err', 'chan', 'par']
    fw = ['acc', 'val', 'err', 'chan', 'par']
    cs = []
    for p in progs:
        first = p.schema.name == 'u'
        for a in range(len(p.arr)):
            root = p.array_root(a)
            n = (200 if env.THOROUGH else 14) * (2 if first else 1)
            for _ in range(n):
                v = gen.root_value(rng, p.tla, root, 0.4)
                st = gen.Style(rng)
                t = gen.root_text(rng, p.tla, st, root, v)
                init = gen.root_value(rng, p.tla, root, 0.4) if rng.random() < 0.4 else None
                cs.append(codec.D(p, root, t, fr, codec.ARR_READ, init, 'array'))
                cs.append(codec.S(p, root, v, rng.randint(0, 1), rng.randint(0, 1), fw, codec.ARR_WRITE, 'array'))
                cs.append(codec.D(p, root, gen.damage(rng, t), fr, codec.ARR_READ, None, 'damaged'))
                cs.append(codec.D(p, root, gen.mistyped(rng, p.tla, gen.Style(rng), root, v), fr, codec.ARR_READ, None, 'mistyped'))
                bad = gen.root_value(rng, p.tla, root, 0.4, 0.3)
                cs.append(codec.S(p, root, bad, 1, rng.randint(0, 1), fw, codec.ARR_WRITE, 'unwritable'))
            f = dict(root)
            if f['k'] == 'sstr':
                f['k'] = 'str'
            for t in [b'', b'null', b'{}', b'[', b']', b'[]', b' [ ] ', b'[] x', b'[null]', b'[null,null]', b'[,]', b'[null,]', b'1', b'"x"', b'true', b'[[]]', b'[{}]', b'[1]', b'["a"]', b'[true]', b'["AAAA"]', b'[""]', b'[null', b'[]]', b'\n\n [', b'[\n1', b'[0,0']:
                cs.append(codec.D(p, root, t, fr, codec.ARR_READ, None, 'special'))
            if first or env.THOROUGH:
                for t in c04.notations(rng, f):
                    cs.append(codec.D(p, root, t, fr, (0,), None, 'notation'))
                ws = c05.wrong_values(rng, f)
                for t in (ws if env.THOROUGH else rng.sample(ws, min(40, len(ws)))):
                    cs.append(codec.D(p, root, t, fr, (0,), None, 'wrong value'))
                if root['k'] != 'msg':
                    for e in cases.edge_values(root['k']):
                        cs.append(codec.S(p, root, [[e] if root['k'] == 'str' else e], 1, 0, fw, (0,), 'edge'))
    # many elements
    if progs:
        p = progs[0]
        for a in range(len(p.arr)):
            root = p.array_root(a)
            for n in cases.sizes(rng, 3):
                n = min(n // 4, 3000 if not env.THOROUGH else 20000)
                pool = gen.root_value(rng, p.tla, root, 0.2) * 3 + gen.root_value(rng, p.tla, root, 0.2)
                v = [pool[i * i % len(pool)] for i in range(n)] if pool else []
                if root['k'] == 'msg' and not env.THOROUGH:
                    v = v[:300]
                cs.append(codec.S(p, root, v, 0, 0, fw, codec.ARR_WRITE, 'large'))
                cs.append(codec.D(p, root, gen.root_text(rng, p.tla, gen.Style(rng, ws=0.05, esc=0, num=0), root, v), fr, codec.ARR_READ, None, 'large'))
    run.sample(codec.show(rng.choice(cs)))
    run.sample(codec.show(rng.choice(cs)))
    run.sample(codec.show(rng.choice(cs)))
    codec.run_and_judge(run, cs)
