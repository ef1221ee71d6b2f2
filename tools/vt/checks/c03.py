"""C03: ensure_ascii output is pure ASCII and loses nothing."""
import random
from .. import env, gen, schema, codec, cases


def text_fields(p):
    """(root, how to build a value with the text) for every place where a message tree can hold a string."""
    out = []
    for m in range(len(p.tla)):
        root = {'k': 'msg', 'r': 0, 'm': m + 1}
        for i, f in enumerate(p.tla[m]['f']):
            if f['t']:
                continue
            if f['k'] == 'str':
                if f['r']:
                    out.append((root, lambda t, p=p, root=root, i=i: cases.put(p, root, i, [[list(b'ok')], [t]])))
                else:
                    out.append((root, lambda t, p=p, root=root, i=i: cases.put(p, root, i, [t])))
            elif f['k'] == 'msg':
                for j, g in enumerate(p.tla[f['m'] - 1]['f']):
                    if g['k'] == 'str' and not g['t']:
                        sub = {'k': 'msg', 'r': 0, 'm': f['m']}

                        def mk(t, p=p, root=root, i=i, j=j, f=f, g=g, sub=sub):
                            x = cases.put(p, sub, j, [[t]] if g['r'] else [t])
                            return cases.put(p, root, i, [x] if f['r'] else x)
                        out.append((root, mk))
    return out


def bad_sequences(rng):
    """All ill-formed sequences up to two bytes, strata of the longer ones."""
    out = [bytes([a]) for a in range(0x80, 0x100)]
    for a in range(0xC0, 0x100):
        bs = range(256) if env.THOROUGH else [0, 0x41, 0x7F, 0x80, 0x8F, 0x90, 0x9F, 0xA0, 0xBF, 0xC0, 0xE2, 0xFF]
        out += [bytes([a, b]) for b in bs]
    edge = [0x41, 0x7F, 0x80, 0x81, 0x8F, 0x90, 0x9F, 0xA0, 0xBF, 0xC0, 0xFF]
    for a in list(range(0xE0, 0xF8)) if env.THOROUGH else [0xE0, 0xE1, 0xEC, 0xED, 0xEE, 0xEF, 0xF0, 0xF1, 0xF3, 0xF4, 0xF5]:
        for b in edge:
            out += [bytes([a, b, c]) for c in edge]
    for a in (0xF0, 0xF1, 0xF2, 0xF3, 0xF4, 0xF5, 0xF7):
        for b in edge:
            for c in (edge if env.THOROUGH else (0x7F, 0x80, 0xBF, 0xC0)):
                out += [bytes([a, b, c, d]) for d in (edge if env.THOROUGH else (0x7F, 0x80, 0xBF, 0xC0))]
    return out


def check(run):
    rng = random.Random(env.SEED)
    progs = codec.build_programs(run, cases.family(run, 2, 12, many=False))
    fac = ['acc', 'val', 'err']
    cs = []
    for p in progs:
        tf = text_fields(p)
        if not tf:
            continue
        for root, mk in tf[:200]:
            for _ in range(40 if env.THOROUGH else 4):
                cs.append(codec.S(p, root, mk(gen.text_value(rng)), 1, rng.randint(0, 1), fac, (0, 3), 'place'))
                cs.append(codec.S(p, root, mk(gen.bad_text(rng)), 1, rng.randint(0, 1), fac, (0,), 'bad place'))
        for root, v in cases.random_values(rng, p, 300 if env.THOROUGH else 40, 0.04):
            cs.append(codec.S(p, root, v, 1, rng.randint(0, 1), fac, (0,), 'random'))
    if progs:
        u = progs[0]
        root, mk = next(x for x in text_fields(u))
        cps = [c for c in range(0x110000) if not 0xD800 <= c <= 0xDFFF]
        if not env.THOROUGH:
            # every second code point of the basic plane, every lead and every trail of the others
            some = set(range(0x1000)) | set(range(0x1000 + env.SEED % 7, 0xD800, 7)) | set(range(0xE000 + env.SEED % 7, 0x10000, 7))
            some |= {0x10000 + (i << 10) + (i * 37 + env.SEED) % 1024 for i in range(1024)} | {0x10000 + (((i * 11 + env.SEED) % 1024) << 10) + i for i in range(1024)}
            some |= set(gen.CP_EDGES)
            cps = sorted(c for c in some if not 0xD800 <= c <= 0xDFFF)
        for a in range(0, len(cps), 48):
            t = list(b''.join(gen.utf8(c) for c in cps[a:a + 48]))
            cs.append(codec.S(u, root, mk(t), 1, 0, fac, (0,), 'code points'))
        small = progs[1] if len(progs) > 1 else u
        root, mk = text_fields(small)[0]
        for b in bad_sequences(rng):
            cs.append(codec.S(small, root, mk(list(b)), 1, 0, fac, (0,), 'ill-formed'))
            if rng.random() < 0.2:
                cs.append(codec.S(small, root, mk(list(b'a' + b + b'z')), 1, 0, fac, (0,), 'ill-formed'))
    run.sample(codec.show(rng.choice(cs)))
    run.sample(codec.show(rng.choice(cs)))
    run.sample(codec.show(rng.choice(cs)))
    codec.run_and_judge(run, cs)
