"""C09: message objects have value semantics."""
import json, random
from .. import env, gen, schema, codec, cases


def field_val(rng, p, m, i):
    f = p.tla[m - 1]['f'][i]
    while True:
        v = gen.field_value(rng, p.tla, f, 0.4, 2)
        t = json.dumps(v)
        if '128, 0, 0, 0' not in t:
            return v


def root_val(rng, p, m, dens):
    v = gen.default(p.tla, m)
    for i in range(len(v)):
        if rng.random() < dens:
            v[i] = field_val(rng, p, m, i)
    return v


def valid_text(rng, p, root):
    m = root['m']
    return list(gen.root_text(rng, p.tla, gen.Style(rng, num=0, unknown=0.2), root, root_val(rng, p, m, 0.3)))


def random_script(rng, p, root, n):
    m = root['m']
    nf = len(p.tla[m - 1]['f'])
    s = []
    for _ in range(n):
        op = rng.choice([0, 0, 0, 1, 2, 2, 3, 3, 4, 5, 6, 7, 7, 8, 9, 9, 10, 11, 12, 12, 13])
        a, b = rng.randrange(3), rng.randrange(3)
        if nf == 0 and op in (0, 1, 7, 8, 9, 13):
            continue
        f = rng.randrange(nf) if nf else 0
        v = 0
        if op in (0, 9):
            v = field_val(rng, p, m, f)
        elif op == 11:
            v = valid_text(rng, p, root)
        elif op == 13:
            v = rng.randrange(4)
        elif op == 12:
            v = root_val(rng, p, m, rng.choice([0, 0.2, 1.0 if nf < 15 else 0.5]))
        s.append([op, a, b, f, v])
    return s


ZERO = {'i32': [48], 'i64': [48], 'u32': [48], 'u64': [48], 'f32': [0] * 4, 'f64': [0] * 8, 'bool': 0, 'str': []}


def field_scripts(rng, p, root):
    """For each field: zero values are values; objects that differ in one field only are different; copies are independent."""
    m = root['m']
    fs = p.tla[m - 1]['f']
    dflt = gen.default(p.tla, m)
    for i, f in enumerate(fs):
        base = root_val(rng, p, m, 0.3)
        x, y = field_val(rng, p, m, i), field_val(rng, p, m, i)
        none = dflt[i]
        zero = [ZERO[f['k']]] if not f['r'] and f['k'] in ZERO else [[]] if f['r'] and f['k'] in ('str', 'bytes') else x
        pairs = [(none, zero), (zero, none), (x, zero), (none, x), (x, y), (x, x)]
        if len(fs) > 20 and not env.THOROUGH:
            pairs = [pairs[i % 2], pairs[2 + i % 4]]
        for u, w in pairs:
            a, b = list(base), list(base)
            a[i], b[i] = u, w
            yield [[12, 0, 0, 0, a], [12, 1, 0, 0, b], [2, 2, 0, 0, 0], [7, 2, 1, i, 0], [3, 0, 1, 0, 0], [0, 0, 0, i, x], [3, 1, 2, 0, 0], [1, 2, 0, i, 0], [5, 2, 1, 0, 0], [13, 0, 0, i, i % 4], [13, 2, 2, i, (i + 1) % 4], [13, 1, 0, i, (i + 2) % 4], [4, 1, 0, 0, 0]]
            # only this field
            a, b = list(dflt), list(dflt)
            a[i], b[i] = u, w
            yield [[12, 0, 0, 0, a], [12, 1, 0, 0, b], [2, 2, 0, 0, 0], [2, 0, 1, 0, 0], [10, 1, 2, 0, 0], [9, 1, 0, i, zero], [8, 0, 1, i, 0], [3, 0, 2, 0, 0], [6, 2, 1, 0, 0], [1, 2, 0, i, 0], [9, 0, 0, i, none]]


def small_model(run, prog):
    """The complete graph of a small store (spec/ObjectsMC.tla)."""
    doms = {'i32': [[], [[48]]], 'str': [[], [[]]], 'bool': [[], [0]], 'f64': [[], [[0] * 8]]}
    picks = [['i', 's', 'o'], ['a', 'y', 'l']] if not env.THOROUGH else [['i', 's', 'a', 'o', 't'], ['b', 'y', 'l', 'f', 's'], ['f', 's', 'l', 'o', 'a']]
    S = prog.tla
    out = []
    for pick in picks:
        fs = S[1]['f']
        dom, texts = [], []
        for f in fs:
            nm = bytes(f['n']).decode()
            if f['k'] == 'msg' and not f['r']:
                d = [[[]], [[[48]]]]
            elif f['k'] == 'msg':
                d = [[], [[[[48]]]]]
            elif f['r']:
                d = [[], [[48]]]
            elif f['k'] == 'bytes':
                d = [[], [0]]
                d = [[], [0]]
            else:
                d = doms[f['k']]
            if nm not in pick:
                d = [d[0], d[0]]
            dom.append(d)
        texts = [list(b'{"%s":null}' % x.encode()) for x in pick[:2]] + [list(b'{}')] + ([list(b'{"i":0}')] if 'i' in pick else []) + ([list(b'{"a":[0]}')] if 'a' in pick else []) + ([list(b'{"s":""}')] if 's' in pick else [])
        c = run.path('omc.json')
        env.write_json(c, {'schema': S, 'm': 2, 'dom': dom, 'texts': texts, 'objects': 2, 'vals': 2, 'maxlen': 1})
        r = run.tlc('ObjectsMC', env={'MC': c})
        run.cov['states'] += r.distinct
        run.cov['transitions'] += r.generated
        run.cov['model_states_explored'] = run.cov.get('model_states_explored', 0) + r.distinct
        paths = [json.loads(x) for x in r.printed('CASE ')]
        run.progress('ObjectsMC: %d states, %d transitions' % (r.distinct, r.generated))
        out += paths
    return out


def check(run):
    rng = random.Random(env.SEED)
    progs = codec.build_programs(run, cases.family(run))
    cs = []
    for p in progs:
        for root in p.roots():
            for s in field_scripts(rng, p, root):
                cs.append(codec.O(p, root, s, 'field'))
        for _ in range(800 if env.THOROUGH else 45):
            root = rng.choice(p.roots())
            cs.append(codec.O(p, root, random_script(rng, p, root, rng.choice([3, 8, 20])), 'random'))
    t = next((p for p in progs if p.schema.name == 't'), None)
    if t is not None:
        root = {'k': 'msg', 'r': 0, 'm': 2}
        paths = small_model(run, t)
        es = []
        for s, want in paths:
            c = codec.O(t, root, s, 'explored')
            c['want'] = want
            c['last'] = True
            es.append(c)
        es = codec.execute(run, es, chunk=3000)
        for c in es:
            if len(c['res']) != 1 or c['res'][-1] != c['want']:
                run.violation(codec.key_of(c), 'explored script %s: expected %s, observed %s' % (codec.js(c['script'])[:300], codec.js(c['want']), codec.js(c['res'][-1:])), codec.replay(c))
        run.cov['traces_validated_against_impl'] += len(es)
        run.sample({'script': codec.js(paths[-1][0]), 'specified': codec.js(paths[-1][1])})
    run.sample(codec.show(rng.choice(cs)))
    run.sample(codec.show(cs[-1]))
    codec.run_and_judge(run, cs)
