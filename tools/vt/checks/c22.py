"""C22: an operation that fails or is stopped damages nothing."""
import json, random
from .. import env, gen, schema, codec, cases, decmc

CHUNKS = [b'{', b'}', b'[', b']', b':', b',', b'"i"', b'"s"', b'"a"', b'"o"', b'"l"', b'"y"', b'"x"', b'"?"', b'"b"', b'1', b'-', b'.5', b'true', b'null', b'"AA=="', b'"', b'\\', b' ']

NONE, STOP, ALLOC_TEXT, ALLOC_STREAM, ALLOC_STD, QUIET, LOUD = range(7)


def seconds(rng, p, root):
    """A text for the object afterwards."""
    if root['r']:
        v = gen.root_value(rng, p.tla, root, 0.5)
    else:
        v = gen.msg_value(rng, p.tla, root['m'], 0.4 if len(p.tla[root['m'] - 1]['f']) < 15 else 0.1, 1)
    return gen.root_text(rng, p.tla, gen.Style(rng, ws=0, esc=0, unknown=0), root, v)


def explored(run, rng, t, wide):
    """Every behaviour of FaultsMC in the real decoder."""
    root = {'k': 'msg', 'r': 0, 'm': 2}
    full = [[gen.digits(7)], [list(b'old')], [gen.digits(1), gen.digits(2)], [[gen.digits(3)]], [1], [1, 2, 3], [gen.digits(9)], [[[gen.digits(4)]]], [gen.f64(0.5)]]
    inits = [gen.default(t.tla, 2), full]
    again = b'{"s":"new","a":[5],"o":{"x":6},"l":[{"x":7}]}'
    ft = gen.float_table(b'1 1.5 -1 -1.5 11 11.5 -11 1.51 1.5.5')
    path = run.path('faults.json')
    env.write_json(path, {'schema': t.tla, 'chunks': [list(c) for c in CHUNKS], 'root': root, 'inits': inits, 'again': list(again), 'frames': 4 if env.THOROUGH else 3,
                          'buf': 4, 'len': 70 if env.THOROUGH else 44, 'names': 3 if env.THOROUGH else 2, 'ft': ft})
    r = run.tlc('FaultsMC', env={'MC': path})
    run.cov['states'] += r.distinct
    run.cov['transitions'] += r.generated
    texts = sorted(set((x[0], bytes(x[1])) for x in (json.loads(y) for y in r.printed('CASE '))))
    if len(texts) < 100:
        raise env.CheckError('FaultsMC printed %d texts' % len(texts))
    run.progress('FaultsMC: %d states, %d transitions, %d texts' % (r.distinct, r.generated, len(texts)))
    # every text would take hours in the real decoder
    texts = rng.sample(texts, min(len(texts), 40000 if env.THOROUGH else 3500))
    cs = []
    for n, x in texts:
        # stopped at its end in every way
        cs.append(codec.F(t, root, x, NONE, again, 1, inits[n - 1], 'explored'))
        c = codec.F(t, root, x, STOP, again, max(len(x) - 1, 1), inits[n - 1], 'explored')
        cs.append(c)
        k = rng.random()
        if k < wide:
            cs.append(codec.F(t, root, x, rng.choice([QUIET, LOUD, ALLOC_TEXT, ALLOC_STREAM, ALLOC_STD]), again, 1, inits[n - 1], 'explored'))
    return cs


def check(run):
    rng = random.Random(env.SEED)
    progs = codec.build_programs(run, cases.family(run, 2, 8), flags=['-DDRV_FAULT'])
    cs = []
    big = env.THOROUGH
    for p in progs:
        style = dict(dup=0)
        # texts with an error: what remains of the object
        for root, v, t in cases.damaged_docs(rng, p, 1200 if big else 110, **style):
            init = gen.root_value(rng, p.tla, root, rng.choice([0.3, 0.6, 1.0]))
            cs.append(codec.F(p, root, t[:3000], NONE, seconds(rng, p, root), 1, init if rng.random() < 0.8 else None, 'damaged'))
        for a in range(len(p.arr)) if p.schema.name in ('u', 't') or big else []:
            root = p.array_root(a)
            for _ in range(40 if big else 4):
                v = gen.root_value(rng, p.tla, root, 0.4)
                t = gen.root_text(rng, p.tla, gen.Style(rng), root, v)[:400]
                init = gen.root_value(rng, p.tla, root, 0.4)[:3]
                cs.append(codec.F(p, root, gen.damage(rng, t), NONE, seconds(rng, p, root), 1, init, 'damaged array'))
                cs.append(codec.F(p, root, t[:150], rng.choice([STOP, ALLOC_TEXT, ALLOC_STREAM]), seconds(rng, p, root), 1, init, 'stopped array'))
        # every field alone with a value of another kind, over a full object
        if p.schema.name in ('u', 't') or big:
            for root in p.roots():
                fs = p.tla[root['m'] - 1]['f']
                st = gen.Style(rng, ws=0, esc=0, num=0)
                for i, f in enumerate(fs):
                    if f['t']:
                        continue
                    for val in (b'true', b'"x y"', b'-1.5', b'1e999', b'{"?":1,', b'[', b'[null,5,', b'[true,"A", x', b'null x', b'"AA==', b'{"x":3,"y":', b'"a\\', b'1 1', b'99999999999999999999', b'"QUJD" 1', b'["QUJD","Q"'):
                        if not big and rng.random() < 0.6:
                            continue
                        init = gen.msg_value(rng, p.tla, root['m'], 0.3, 2)
                        init[i] = gen.field_value(rng, p.tla, f, 0.8, 1)
                        t = b'{' + gen.member(rng, st, f['n'], val)
                        cs.append(codec.F(p, root, t + rng.choice([b'', b'}', b',']), NONE, seconds(rng, p, root), 1, init, 'wrong value'))
        # stopped at every character, at every allocation
        for mode in (STOP, ALLOC_TEXT, ALLOC_STREAM, ALLOC_STD, QUIET, LOUD):
            n = (60 if big else 5) if mode in (STOP, QUIET, LOUD) else (30 if big else 3)
            for root, v, t in cases.random_docs(rng, p, n, **style):
                if len(t) > (400 if big else 160):
                    continue
                if rng.random() < 0.2:
                    t = gen.damage(rng, t)
                init = gen.root_value(rng, p.tla, root, 0.5)
                if codec.count(init) > 1500:
                    init = None
                cs.append(codec.F(p, root, t, mode, seconds(rng, p, root), 1, init if rng.random() < 0.7 else None, 'stopped'))
        # writing
        for mode in range(10):
            for root, v in cases.random_values(rng, p, 20 if big else 3, 0.1 if mode else 0.5):
                if codec.count(v) > (1200 if mode else 5000):
                    continue
                cs.append(codec.G(p, root, v, rng.randint(0, 1), rng.randint(0, 1), mode, 1, 'writing'))
            if p.schema.name in ('u', 't') or big:
                for a in range(len(p.arr)):
                    if mode in (5, 7, 8, 9) or rng.random() < (0 if big else 0.7):
                        continue
                    root = p.array_root(a)
                    cs.append(codec.G(p, root, gen.root_value(rng, p.tla, root, 0.4, 0.05)[:6], rng.randint(0, 1), 0, mode, 1, 'writing array'))
    t = next((p for p in progs if p.schema.name == 't'), None)
    if t is not None:
        cs += explored(run, rng, t, 1.0 if big else 0.2)
        # large texts with an error behind everything else
        root = {'k': 'msg', 'r': 0, 'm': 2}
        vs = list(cases.big_values(rng))
        for what, n, s in cases.big_docs(rng):
            if what in ('again', 'merged', 'null members') or n > 17000 and not big:
                continue
            cs.append(codec.F(t, root, cases.spoiled(rng, s), NONE, b'{"i":1}', 1, None, 'large: ' + what))
    for _ in range(3):
        run.sample(codec.show(rng.choice(cs)))
    good = codec.execute(run, cs, timeout=300 if big else 120)
    run.progress('executed %d operations' % len(good))
    n = sum(len([h for h in r['h'] if h >= 0]) for c in good for r in c['res'])
    run.cov['faults'] = n
    codec.judge(run, good, module='FaultTrace')
