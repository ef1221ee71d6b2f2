"""C04: every valid JSON text with matching types is accepted and decoded exactly."""
import random
from .. import env, gen, schema, codec, cases, decmc


def notations(rng, f):
    """Texts for a member of the field, most of them valid."""
    k = f['k']
    st = gen.Style(rng, ws=0, esc=0.5, num=1)
    out = []
    if k in gen.LIM:
        for x in gen.int_edges(k):
            d = gen.digits(x)
            out.append(bytes(d))
            for _ in range(6 if env.THOROUGH else 2):
                out.append(gen.number_int(rng, st, d))
        out += [b'-0', b'0.0', b'-0.000', b'0e0', b'0e5', b'0E-5', b'-0e+7', b'0e999999999999', b'10e-1', b'1.0e0', b'100e-2', b'0.001e3', b'0.1e1', b'1000000000e-9', b'0e-4000000000', b'0.00e+1']
    elif k in ('f32', 'f64'):
        for b in gen.float_edges(k):
            out.append(gen.number_float(rng, st, k, b))
        for _ in range(400 if env.THOROUGH else 30):
            out.append(gen.halfway(rng, k))
        out += [b'-0', b'-0.0', b'0e5', b'1e-400', b'-1e-400', b'5e-324', b'2.4703282292062327e-324', b'2.4703282292062328e-324', b'1.7976931348623157e308', b'1e0', b'1E+2', b'123456789012345678901234567890', b'0.' + b'0' * 60 + b'1',
                b'1' + b'0' * 30, b'3.4028234e38', b'1.4e-45', b'7e-46', b'7.1e-46', b'0.1e-0', b'4.35', b'0.000001', b'1e23', b'8.5e-45', b'9007199254740993', b'16777217', b'16777219', b'1e-1000000000', b'0e1000000000', b'1.' + b'0' * 80 + b'1']
    elif k == 'bool':
        out += [b'true', b'false']
    elif k == 'str':
        for e in cases.edge_values('str'):
            out.append(gen.string(rng, gen.Style(rng, esc=rng.choice([0, 1])), e))
    elif k == 'bytes':
        for e in cases.edge_values('bytes'):
            out.append(gen.scalar_text(rng, gen.Style(rng, esc=rng.choice([0, 0.3])), 'bytes', e))
    elif k == 'msg':
        out += [b'{}', b'{ }', b'{\n}']
    out.append(b'null')
    if f['r']:
        ws = gen.Style(rng, ws=0.3)
        res = [b'[]', b'[ \n]', b'null', b'[null]', b'[null,null , null]']
        for i in range(0, len(out), 5):
            res.append(b'[' + (gen.ws(rng, ws) + b',' + gen.ws(rng, ws)).join(out[i:i + 5]) + b']')
        return res
    return out


def check(run):
    rng = random.Random(env.SEED)
    progs = codec.build_programs(run, cases.family(run))
    fac = ['pos', 'val']
    cs = []
    for p in progs:
        n = 1500 if env.THOROUGH else 130
        for root, v, t in cases.random_docs(rng, p, n):
            cs.append(codec.D(p, root, t, fac, (0,), None, 'document'))
        for root, v, t in cases.random_docs(rng, p, n // 6, nullelem=0.3, null=0.5):
            cs.append(codec.D(p, root, t, fac, (0,), None, 'nulls'))
        if p.schema.name == 't':
            for what, n, t in cases.big_docs(rng):
                cs.append(codec.D(p, {'k': 'msg', 'r': 0, 'm': 2}, t, fac, (0,), None, 'large: ' + what))
        if p.schema.name == 'u':
            for root, t in cases.one_field_docs(rng, p, lambda f: notations(rng, f)):
                cs.append(codec.D(p, root, t, fac, (0,), None, 'notation'))
    if progs:
        u = progs[0]
        root, fs = cases.scalars_of(u)
        i = next(j for j, f in enumerate(fs) if f['k'] == 'str' and not f['r'] and not f['t'])
        name = bytes(fs[i]['n'])
        cps = [c for c in range(0x110000) if not 0xD800 <= c <= 0xDFFF]
        if not env.THOROUGH:
            some = set(range(0x900)) | set(range(0x900 + env.SEED % 23, 0x10000, 23)) | set(range(0x10000 + env.SEED % 501, 0x110000, 501)) | set(gen.CP_EDGES)
            cps = sorted(c for c in some if not 0xD800 <= c <= 0xDFFF)
        esc = gen.Style(rng, ws=0, esc=1, num=0)
        for a in range(0, len(cps), 40):
            t = b''.join(gen.u_escape(rng, c) for c in cps[a:a + 40])
            cs.append(codec.D(u, root, b'{"' + name + b'":"' + t + b'"}', fac, (0,), None, 'escapes'))
            t = gen.string(rng, gen.Style(rng, ws=0, esc=0, num=0), b''.join(gen.utf8(c) for c in cps[a:a + 40]))
            cs.append(codec.D(u, root, b'{"' + name + b'":' + t + b'}', fac, (0,), None, 'code points'))
        # member names written with escapes
        for f in fs:
            if f['t']:
                continue
            v = cases.put(u, root, fs.index(f), gen.field_value(rng, u.tla, f, 0.5, 2))
            cs.append(codec.D(u, root, gen.obj_text(rng, u.tla, esc, root['m'], v), fac, (0,), None, 'escaped name'))
    run.sample(codec.show(rng.choice(cs)))
    run.sample(codec.show(rng.choice(cs)))
    run.sample(codec.show(rng.choice(cs)))
    codec.run_and_judge(run, cs)
    decmc.check(run, progs, ['pos', 'val'])
