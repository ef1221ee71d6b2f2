"""C14: generated headers compile alone and together, messages ordered."""
import hashlib, json, os, random
from .. import env, schema, proto, cxx


def key(kind, text):
    return '%s:%s' % (kind, hashlib.sha1(text.encode('utf-8', 'replace')).hexdigest()[:10])


def graph_schema(rng, k, g):
    """Messages 0..n-1 in this order; every edge is one or more fields."""
    n = len(g)
    base = 'g%d' % k
    pk = [base + rng.choice(['', '', '.s', '.t.u']) for _ in range(n)]
    if rng.random() < 0.5:
        pk = [pk[0]] * n
    o = ['syntax = "proto3";']
    cur = None
    for m in range(n):
        if pk[m] != cur:
            o.append('package %s;' % pk[m])
            cur = pk[m]
        fs = []
        for x in range(n):
            for _ in range(rng.choice([1, 1, 2]) if g[m][x] else 0):
                t = 'M%d' % x if pk[x] == pk[m] else '%s.M%d' % (pk[x], x)
                fs.append(rng.choice(['', '', 'repeated ', 'optional ']) + t + ' f%d = %d' + rng.choice(['', '', '', ' [transient = true]']) + ';')
        if rng.random() < 0.5 or not fs:
            fs.append(rng.choice(['int32', 'string', 'bytes', 'repeated bool']) + ' f%d = %d;')
        rng.shuffle(fs)
        nums = rng.sample(range(1, 99), len(fs))
        names = rng.sample(range(10, 99), len(fs))
        o.append('message M%d {' % m)
        for f, a, b in zip(fs, names, nums):
            o.append('  ' + f % (a, b))
        o.append('}')
    return '\n'.join(o) + '\n', [cxx.cpp_name(pk[m], 'M%d' % m) for m in range(n)]


def graphs(run, n, acyclic):
    p = run.path('omc.json')
    env.write_json(p, {'n': n, 'acyclic': acyclic})
    r = run.tlc('Order', env={'MC': p})
    run.cov['states'] += r.distinct
    run.cov['transitions'] += r.generated
    run.cov['model_states_explored'] = run.cov.get('model_states_explored', 0) + r.distinct
    out = sorted(json.loads(x) for x in r.printed('CASE '))
    run.progress('Order: %d graphs of %d messages, %d states' % (len(out), n, r.distinct))
    return out


def check_orders(run, rng):
    gs = graphs(run, 3, 0) + graphs(run, 4, 1)
    if env.THOROUGH:
        gs += graphs(run, 4, 0)[::3] + graphs(run, 5, 1)[::4]
    d = os.path.dirname(run.path('order', 'x'))
    todo = []
    for k, (g, cyc) in enumerate(gs):
        text, classes = graph_schema(rng, k, g)
        todo.append((k, g, cyc, text, classes))

    def one(x):
        k, g, cyc, text, classes = x
        f = cxx.write(os.path.join(d, 'o%d.proto' % k), text)
        return cxx.generate(run, f, os.path.join(d, 'o%d.hh' % k))
    res = env.pmap(one, todo)
    good = []
    for x, (end, err) in zip(todo, res):
        k, g, cyc, text, classes = x
        if cyc and end == 0:
            run.violation(key('cycle', text), 'circular references accepted: ' + text, text)
        elif not cyc and end != 0:
            run.violation(key('order', text), 'rejected (%s) without a circular reference: %s' % (err.strip()[-200:], text), text)
        elif end == 0:
            good.append(x)
    size = 24
    groups = [good[i:i + size] for i in range(0, len(good), size)]

    def comp(gr):
        tag = gr[0][0]
        c = cxx.write(os.path.join(d, 'u%d.cc' % tag), ''.join('#include "o%d.hh"\n' % x[0] for x in gr) + cxx.use_code('g', [c for x in gr for c in x[4]]) + 'int main() { return pg_run_g(); }\n')
        exe = os.path.join(d, 'u%d' % tag)
        # every other group is only checked, the rest also runs
        err = cxx.compile_(cxx.CLANGXX + ['-fsyntax-only', c] if (tag // size) % 2 else cxx.GXX + ['-fsyntax-only', c])
        if err:
            for x in gr:
                a = cxx.write(os.path.join(d, 'a%d.cc' % x[0]), '#include "o%d.hh"\n' % x[0] + cxx.use_code('g', x[4]))
                e = cxx.compile_(cxx.GXX + ['-fsyntax-only', a]) or cxx.compile_(cxx.CLANGXX + ['-fsyntax-only', a])
                if e:
                    return (x, e)
            return (gr[0], 'together: ' + err)
    for r in env.pmap(comp, groups):
        if r:
            run.violation(key('header', r[0][3]), 'the header does not compile: %s\n%s' % (r[1], r[0][3]), r[0][3])
    run.cov['traces_validated_against_impl'] += len(gs)
    run.cov['graphs'] = len(gs)
    run.sample({'schema': todo[len(todo) // 2][3], 'circular': bool(todo[len(todo) // 2][2])})
    run.progress('%d graphs, %d headers compiled' % (len(gs), len(good)))


def part_headers():
    """Headers that need every combination of the parts."""
    out = []
    for bits in range(16):
        need = [p for i, p in enumerate(('array', 'base64', 'number', 'string')) if bits >> i & 1]
        fs = []
        rep = 'repeated ' if 'array' in need else ''
        if 'base64' in need:
            fs.append(rep + 'bytes d = 1;')
        if 'number' in need:
            fs += [rep + t + ' n%d = %d;' % (i, 10 + i) for i, t in enumerate(('int32', 'double', 'bool', 'uint64', 'float'))]
        if 'string' in need:
            fs.append(rep + 'string s = 3;')
        extra = 'message E { }\n'
        body = 'message M {\n' + '\n'.join(fs) + ('\n%sE e = 40;' % rep) + '\n}\n'
        opt = ['', 'option obfuscate_strings = true;\n', 'option number_names = true;\n', 'option cpp_use_lists = true;\n'][bits % 4]
        out.append((need, 'syntax = "proto3";\n%spackage part%d;\n%s%s' % (opt, bits, extra, body), ['::part%d::M' % bits, '::part%d::E' % bits]))
    out.append((['number', 'string'], 'syntax = "proto3";\nmessage Plain { int32 x = 1 [name = "\u00e9"]; }', ['::Plain']))
    out.append(([], 'syntax = "proto3";\nmessage Nothing {}', ['::Nothing']))
    out.append((['number'], 'syntax = "proto3";\npackage part1; message Only { bool t = 1 [transient = true]; }', ['::part1::Only']))
    out.append(([], 'syntax = "proto3";', []))
    return out


def check_parts(run, rng):
    hs = part_headers()
    d = os.path.dirname(run.path('parts', 'x'))
    # files with the same name in different directories and with odd names
    names = ['schema.proto', 'a b.proto', '1-2.proto', 'x', '\u00e9.proto', 'n.proto']
    incs = []
    for i, (need, text, classes) in enumerate(hs):
        f = cxx.write(os.path.join(d, 'h%d' % i, names[i % len(names)]), text)
        end, err = cxx.generate(run, f, os.path.join(d, 'h%d.hh' % i))
        if end != 0:
            run.violation(key('part', text), 'valid schema rejected (%s): %s' % (err.strip()[-200:], text), text)
            return
    p = run.path('pmc.json')
    env.write_json(p, {'headers': [h[0] for h in hs], 'len': 2})
    r = run.tlc('Parts', env={'MC': p})
    run.cov['states'] += r.distinct
    run.cov['transitions'] += r.generated
    run.cov['model_states_explored'] = run.cov.get('model_states_explored', 0) + r.distinct
    units = sorted(json.loads(x) for x in r.printed('CASE '))
    units += [rng.choices(range(1, len(hs) + 1), k=k) for k in ([3, 4, 6] if not env.THOROUGH else [3] * 40 + [5] * 20)] + [list(range(1, len(hs) + 1)), list(range(len(hs), 0, -1))]
    if not env.THOROUGH:
        # of the pairs, those in which one header does not need all that the other brings
        units = [u for u in units if len(u) != 2 or u[0] == u[1] or rng.random() < 0.3 or not set(hs[u[1] - 1][0]) <= set(hs[u[0] - 1][0]) and rng.random() < 0.6]
    run.progress('Parts: %d units' % len(units))

    def comp(iu):
        i, u = iu
        src = ''.join('#include "h%d.hh"\n' % (h - 1) for h in u)
        for h in sorted(set(u)):
            src += cxx.use_code('h%d' % h, hs[h - 1][2])
        c = cxx.write(os.path.join(d, 'p%d.cc' % i), src)
        cc = cxx.CLANGXX if i % 3 == 0 else cxx.GXX
        return cxx.compile_(cc + ['-fsyntax-only', c])
    for (i, u), e in zip(enumerate(units), env.pmap(comp, list(enumerate(units)))):
        if e:
            rep = 'headers in this order:\n' + '\n----\n'.join(hs[h - 1][1] for h in u)
            run.violation(key('unit', str(u)), 'headers %s do not compile together: %s' % (u, e), rep + '\n' + e)
    run.cov['traces_validated_against_impl'] += len(units)
    run.cov['units'] = len(units)
    run.progress('%d units compiled' % len(units))
    # several units linked together; every header in at least two of them; the program runs
    tus = [[i] for i in range(1, len(hs) + 1)] + [list(range(1, len(hs) + 1)), list(range(len(hs), 0, -1))]

    def obj(iu):
        i, u = iu
        src = ''.join('#include "h%d.hh"\n' % (h - 1) for h in u) + 'namespace {\n'
        for h in u:
            src += cxx.use_code('h%d' % h, hs[h - 1][2])
        src += '}\nint unit_%d() { int r = 0;\n' % i + ''.join('  r = r ? r : pg_run_h%d();\n' % h for h in u) + '  return r; }\n'
        c = cxx.write(os.path.join(d, 'l%d.cc' % i), src)
        return cxx.compile_(cxx.GXX + ['-O0', '-c', c, '-o', os.path.join(d, 'l%d.o' % i)])
    errs = env.pmap(obj, list(enumerate(tus)))
    if any(errs):
        u, e = next((u, e) for u, e in zip(tus, errs) if e)
        run.violation(key('unit', str(u)), 'headers %s do not compile in one unit: %s' % (u, e), e)
        return
    m = cxx.write(os.path.join(d, 'lmain.cc'), ''.join('int unit_%d();\n' % i for i in range(len(tus))) + 'int main() {' + ''.join(' if (unit_%d()) return 1;' % i for i in range(len(tus))) + ' return 0; }\n')
    e = cxx.compile_(cxx.GXX + [m] + [os.path.join(d, 'l%d.o' % i) for i in range(len(tus))] + ['-o', os.path.join(d, 'linked')])
    if e:
        run.violation('link', 'units that include the generated headers cannot be linked together: ' + e, e)
        return
    r = env.sh([os.path.join(d, 'linked')], timeout=60)
    if r.returncode != 0:
        run.violation('linked', 'the program of several units fails: %d' % r.returncode, 'status %d' % r.returncode)
    run.progress('linked %d units' % len(tus))


def check_names(run, rng):
    """Files whose paths differ in little or have odd characters: all of them are usable in one unit (Guard.tla)."""
    d = os.path.dirname(run.path('names', 'x'))
    chars = 'ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789_'
    rel = ['n%s.proto' % c for c in chars] + ['d%s/n.proto' % c for c in chars] + ['n.proto', 'nn.proto', 'n', 'N.proto', 'nproto', 'n.prot', 'd/n.proto', 'dd/d/n.proto', 'd/nn.proto', 'n1n.proto', 'nn1.proto',
                                                                                    'n.txt', '0.proto', 'n_1.proto', 'n__1.proto', 'n1_.proto', 'n-1.proto', 'n+1.proto', 'n 1.proto', 'n.1.proto', 'm/1.proto', 'm_1.proto', 'n_2D1.proto', 'n_', 'n.', 'd_n.proto', 'd-n.proto', 'éé.proto', 'éè.proto', 'è.proto',
           'n\n.proto', 'n\r\n.proto', 'n\\', 'n\\\n', 'n??', 'm??/x.proto',   'n*/.proto', 'n\t.proto', 'n"q".proto', '\nint x', '#error', 'n$1$.proto', 'n%.proto', 'n\x7f.proto', 'x' * 150 + '1.proto', 'x' * 150 + '2.proto']
    rel = list(dict.fromkeys(rel))
    rng.shuffle(rel)
    p = run.path('gmc.json')
    env.write_json(p, {'names': [list(r.encode()) for r in rel]})
    r = run.tlc('Guard', env={'MC': p}, workers=1)
    run.cov['states'] += r.distinct
    run.cov['transitions'] += r.generated
    usable = json.loads(r.printed('CASE ')[0])
    todo = []
    for i, f in enumerate(rel):
        todo.append((i, cxx.write(os.path.join(d, 's', f), 'syntax = "proto3";\npackage k%d;\nmessage V { int32 v = %d; }\n' % (i, i + 1))))
    res = env.pmap(lambda x: cxx.generate(run, x[1], os.path.join(d, 'h%d.hh' % x[0])), todo)
    for (i, f), (end, err) in zip(todo, res):
        if end != 0:
            run.violation('name:' + rel[i], 'a schema named %r is rejected: %s' % (rel[i], err.strip()[-200:]), rel[i])
            return

    def unit(ids, tag):
        c = cxx.write(os.path.join(d, 'u%s.cc' % tag), ''.join('#include "h%d.hh"\n' % i for i in ids) + 'int main() { int n = 0;\n' +
                      ''.join('  { ::k%d::V v; v.v = %d; n += (int) v.v; }\n' % (i, i) for i in ids) + '  return n == 0; }\n')
        return cxx.compile_(cxx.GXX + ['-fsyntax-only', c])
    e = unit([i - 1 for i in usable], 'all')
    if e:
        # the first pair that shows it
        bad = None
        pairs = [(a - 1, b - 1) for k, a in enumerate(usable) for b in usable[k + 1:]]
        lost = [i - 1 for i in usable if 'k%d' % (i - 1) in e]
        pairs = [(a, b) for a, b in pairs if a in lost or b in lost][:400] or pairs[:200]
        for (a, b), x in zip(pairs, env.pmap(lambda ab: unit(ab, '%d-%d' % ab), pairs)):
            if x:
                bad = '%s and %s: %s' % (rel[a], rel[b], x)
                break
        run.violation('names', 'headers of different files cannot be used together: %s' % (bad or e), bad or e)
    run.cov['names'] = len(usable)
    run.progress('%d of %d files usable in one unit' % (len(usable), len(rel)))


def check_random(run, rng):
    """Schemas of all shapes, each alone, with both compilers."""
    d = os.path.dirname(run.path('random', 'x'))
    todo = []
    n = 400 if env.THOROUGH else 48
    while len(todo) < n:
        i = len(todo)
        if i % 3 == 0:
            s = schema.random_schema(rng, 'r%d' % i)
            todo.append((i, s.proto(), [m.cpp for m in s.msgs]))
        else:
            s = proto.RandomSchema(rng, big=rng.random() < 0.1, names=['A', 'B', 'C', 'D', 'Foo', 'Bar', 'Long_Name9', 'M1', 'Int32', 'X9'])
            t = proto.Layout(rng).text(s.tokens())
            todo.append((i, t, [cxx.cpp_name(m[2], m[1]) for m in s.rank]))
    for o in ({}, {'cpp_use_lists': True, 'obfuscate_strings': True}):
        s = schema.universal(o)
        todo.append((len(todo), s.proto(), [m.cpp for m in s.msgs]))
        s = schema.many(options=o)
        todo.append((len(todo), s.proto(), [m.cpp for m in s.msgs]))

    def one(x):
        i, text, classes = x
        f = cxx.write(os.path.join(d, 's%d.proto' % i), text)
        end, err = cxx.generate(run, f, os.path.join(d, 's%d.hh' % i))
        if end != 0:
            return ('skip', err)
        a = cxx.write(os.path.join(d, 'alone%d.cc' % i), '#include "s%d.hh"\n#include "s%d.hh"\n' % (i, i) + cxx.use_code('a', classes))
        for cc in (cxx.GXX, cxx.CLANGXX):
            e = cxx.compile_(cc + ['-fsyntax-only', a])
            if e:
                return ('bad', e)
        return ('ok', '')
    res = env.pmap(one, todo)
    for (i, text, classes), (r, e) in zip(todo, res):
        if r == 'bad':
            run.violation(key('header', text), 'the header does not compile: %s\n%s' % (e, text[:600]), text)
    run.cov['accepted_random'] = sum(r == 'ok' for r, e in res)
    run.cov['traces_validated_against_impl'] += run.cov['accepted_random']
    run.progress('%d of %d random schemas accepted and compiled alone' % (run.cov['accepted_random'], len(todo)))


def check(run):
    rng = random.Random(env.SEED)
    run.protogen()
    check_orders(run, rng)
    check_parts(run, rng)
    check_names(run, rng)
    check_random(run, rng)
