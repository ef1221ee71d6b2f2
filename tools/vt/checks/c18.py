"""C18: operations are independent of each other, of threads and of the locale."""
import hashlib, json, os, random, subprocess
from .. import env, gen, schema, codec, cases

FAC = {'D': ['pos', 'neg', 'val', 'err', 'par'], 'S': ['acc', 'val', 'err', 'par']}
LOCALES = [('de_DE', 'UTF-8'), ('fr_FR', 'UTF-8'), ('ru_RU', 'UTF-8'), ('pt_BR', 'UTF-8')]


def make_locale(run):
    """A locale with a comma as decimal separator in a directory of its own."""
    d = os.path.dirname(run.path('locale', 'x'))
    for name, cs in LOCALES:
        try:
            r = env.sh(['localedef', '-c', '-f', cs, '-i', name, os.path.join(d, 'xx_XX.' + cs)], timeout=120)
        except (OSError, subprocess.TimeoutExpired):
            continue
        if os.path.isdir(os.path.join(d, 'xx_XX.' + cs)):
            return d, 'xx_XX.' + cs
    return None, None


def gated(p, c):
    """The operation of a case in the form of the driver (see interleave in driver.hh); objs collects the objects."""
    arr = 1 if c['root']['r'] else 0
    idx = c['root']['a'] if arr else c['root']['m'] - 1
    return arr, idx


def pool_of(rng, p):
    """Short operations of every sort."""
    root, fs = cases.scalars_of(p)
    nm = lambda i: bytes(fs[i]['n'])
    pick = lambda k, r: next((j for j, f in enumerate(fs) if f['k'] == k and f['r'] == r and not f['t']), None)
    out = []

    def doc(t, why):
        out.append(codec.D(p, root, t, FAC['D'], (0,), None, why))
    q = lambda i, v: b'{"' + nm(i) + b'":' + v + b'}'
    for k, r, v in (('str', 0, b'"a\\u00e9"'), ('f64', 0, b'-1.5e3'), ('i64', 0, b'-77'), ('bytes', 0, b'"AAE="'), ('i32', 1, b'[1,2,3]'), ('str', 1, b'["x","y"]'), ('bool', 0, b'true'),
                    ('i32', 0, b'99999999999'), ('str', 0, b'"\\u12"'), ('bytes', 0, b'"A==="'), ('f32', 1, b'[1.5,.]')):
        i = pick(k, r)
        if i is not None:
            doc(q(i, v), 'short')
    doc(b'{"?":{"a":[1]},\n"?":}', 'fails')
    doc(b'{"?":"z"}', 'skips')
    for i in range(3):
        v = gen.root_value(rng, p.tla, root, 0.08)
        out.append(codec.S(p, root, v, i % 2, 0, FAC['S'], (0,), 'writes'))
    i = pick('str', 0)
    out.append(codec.S(p, root, cases.put(p, root, i, [[0x61, 0xE9, 0xFF]]), 1, 0, FAC['S'], (0,), 'cannot be written'))
    i = pick('f64', 0)
    if i is not None:
        out.append(codec.S(p, root, cases.put(p, root, i, [gen.float_value(rng, 'f64')]), 0, 0, FAC['S'], (0,), 'writes a number'))
    for a in range(min(len(p.arr), 3)):
        r = p.array_root(a)
        out.append(codec.D(p, r, b'[1,2]', FAC['D'], (0,), None, 'array'))
    return out


def threads_cfg(run, p, groups, shared):
    """Schedules of the groups (lists of cases) from spec/Threads.tla."""
    gs, texts = [], []
    for g, sh in zip(groups, shared):
        o = []
        for i, c in enumerate(g):
            if c['op'] == 'D':
                o.append({'k': 'D', 's': 1, 'root': {k: c['root'][k] for k in 'krm'}, 'text': c['in']})
                texts.append(c['in'])
            else:
                o.append({'k': 'S', 'steps': 6, 'obj': 1 if sh else i + 1})
        gs.append(o)
    f = run.path('threads.json')
    env.write_json(f, {'groups': gs, 'schemas': [p.tla], 'ft': gen.float_table(*texts)})
    r = run.tlc('Threads', env={'MC': f})
    run.cov['states'] += r.distinct
    run.cov['transitions'] += r.generated
    run.cov['model_states_explored'] = run.cov.get('model_states_explored', 0) + r.distinct
    out = [[] for _ in groups]
    for x in sorted(set(r.printed('CASE '))):
        g, s = json.loads(x)
        out[g - 1].append([i - 1 for i in s])
    run.progress('Threads: %d groups, %d schedules, %d states' % (len(groups), sum(map(len, out)), r.distinct))
    return out


def command(p, g, shared, schedules, mode):
    ops, objs = [], []
    for c in g:
        arr = 1 if c['root']['r'] else 0
        idx = c['root']['a'] if arr else c['root']['m'] - 1
        if c['op'] == 'D':
            ops.append([0, idx, arr, 1, 0 if c['fresh'] else c['init'], c['in']])
        else:
            o = [idx, arr, c['val']]
            if not (shared and o in objs):
                objs.append(o)
            ops.append([1, idx, arr, objs.index(o) if shared else len(objs) - 1, c['ea'], c['sn']])
    return 'I0 ' + codec.js([ops, objs, schedules, mode])


def interleavings(run, rng, progs):
    judged = []
    for p in progs:
        pool = pool_of(rng, p)
        pairs = [[a, b] for i, a in enumerate(pool) for b in pool[i:]]
        rng.shuffle(pairs)
        n = 400 if env.THOROUGH else 40
        groups = pairs[:n]
        short = [c for c in pool if c['op'] == 'S' or len(c['in']) <= 14]
        groups += [[rng.choice(short) for _ in range(3)] for _ in range(12 if env.THOROUGH else 1)]
        shared = [False] * len(groups)
        # several serialisations of one object
        ws = [c for c in pool if c['op'] == 'S']
        for c in ws:
            groups.append([c, dict(c, ea=1 - c['ea']), c])
            shared.append(True)
        groups = [[dict(c) for c in g] for g in groups]
        plans = threads_cfg(run, p, groups, shared)
        work = []
        for g, sh, pl in zip(groups, shared, plans):
            if not env.THOROUGH and len(pl) > 900:
                pl = rng.sample(pl, 900)
            work.append((g, pl, 0, command(p, g, sh, pl, 0)))
        for g, sh in zip(groups, shared):
            if len(g) == 2:
                nest = [[a, b, k] for a, b in ((0, 1), (1, 0)) for k in range(0, 40)]
                work.append((g, nest, 1, command(p, g, sh, nest, 1)))
        rng.shuffle(work)

        def one(part):
            if run.hangs:
                return [], [], 0, ''
            ans, end, err = codec.run_process(p.exe, [w[3] for w in part], (), 600 if env.THOROUGH else 120)
            if end == 'timeout':
                run.hangs += 1
            return part, ans, end, err
        size = 8
        for part, ans, end, err in env.pmap(one, [work[i:i + size] for i in range(0, len(work), size)]):
            for w, a in zip(part, ans):
                g, pl, mode, cmd = w
                run.cov['schedules_replayed'] = run.cov.get('schedules_replayed', 0) + len(pl)
                for c, outcomes in zip(g, json.loads(a)):
                    if len(outcomes) > 1:
                        k, r = outcomes[1]
                        text = 'schedule %s of %s gives %s instead of %s for %s' % (pl[k], 'nested operations' if mode else 'threads', codec.js(r)[:300], codec.js(outcomes[0][1])[:300], codec.show(c))
                        run.violation('interleaving:' + hashlib.sha1(cmd.encode()).hexdigest()[:10], text, 'schema:\n' + p.schema.proto() + '\n' + cmd[:200000])
                    c['res'] = [r for k, r in outcomes]
                    judged.append(c)
            if len(ans) < len(part):
                g, pl, mode, cmd = part[len(ans)]
                run.violation('interleaving:' + hashlib.sha1(cmd.encode()).hexdigest()[:10], 'the interleaved operations: %s: %s' % (codec.crash_text(end), err[-500:]), 'schema:\n' + p.schema.proto() + '\n' + cmd[:200000])
        run.stop_if_hung()
    # one judgement for each distinct outcome
    seen = {}
    for c in judged:
        if 'res' in c and c['res']:
            seen.setdefault(codec.js([codec.command(c), c['res'], id(c['p'])]), c)
    run.sample(codec.show(judged[0]))
    codec.judge(run, list(seen.values()), what='interleaved operations')


def op_cases(rng, p, n):
    """Operations of every sort, many with numbers."""
    cs = []
    for root, v, t in cases.random_docs(rng, p, n):
        cs.append(codec.D(p, root, t, FAC['D'], (0, 1, 2, 3, 5), None, 'document'))
    for root, v, t in cases.damaged_docs(rng, p, n // 3):
        cs.append(codec.D(p, root, t, FAC['D'], (0, 3), None, 'damaged'))
    for root, v in cases.random_values(rng, p, n, 0.05):
        cs.append(codec.S(p, root, v, rng.randint(0, 1), rng.randint(0, 1), FAC['S'], (0, 2, 3), 'value'))
    for a in range(len(p.arr)):
        root = p.array_root(a)
        for _ in range(2):
            v = gen.root_value(rng, p.tla, root, 0.3)
            cs.append(codec.S(p, root, v, 0, 0, FAC['S'], (0,), 'array'))
            cs.append(codec.D(p, root, gen.root_text(rng, p.tla, gen.Style(rng), root, v), FAC['D'], (0,), None, 'array'))
    root, fs = cases.scalars_of(p)
    for i, f in enumerate(fs):
        if f['k'] in ('f32', 'f64') and not f['t']:
            for b in gen.float_edges(f['k'])[::3]:
                cs.append(codec.S(p, root, cases.put(p, root, i, [b]), 0, 0, FAC['S'], (0, 2), 'number'))
            st = gen.Style(rng, ws=0, esc=0)
            for t in (b'0.5', b'-1.25e-3', b'123456.789', b'1e22', b'0.1', b'3'):
                cs.append(codec.D(p, root, b'{' + gen.member(rng, st, f['n'], (b'[' + t + b']') if f['r'] else t) + b'}', FAC['D'], (0, 3, 5), None, 'number'))
    return cs


def combine(groups):
    """The same cases executed several times: all the distinct results."""
    out = []
    for cs in groups:
        have = [c for c in cs if 'res' in c]
        if not have:
            continue
        c = dict(have[0])
        c['res'] = list({codec.js(r): r for x in have for r in x['res']}.values())
        out.append(c)
    return out


def history(run, rng, p, n):
    """The same operations in several orders, and each alone."""
    base = op_cases(rng, p, n)
    runs = []
    for k in range(4):
        cp = [dict(c) for c in base]
        order = list(range(len(cp)))
        if k:
            rng.shuffle(order)
        todo = [cp[i] for i in order]
        if k == 3:
            # the same operation again and again, and a failure before each
            bad = [c for c in base if c['note'] == 'damaged'] or base[:1]
            todo = [x for i in order for x in (dict(rng.choice(bad)), cp[i], dict(cp[i]))]
        codec.execute(run, todo, chunk=1 if k == 0 and env.THOROUGH else 37 if k == 0 else 100000)
        runs.append(cp)
    return combine(list(zip(*runs)))


def consistent(run, cs, what):
    """The same channel must say the same every time."""
    for c in cs:
        by = {}
        for r in c['res']:
            for h in r.get('h', [0]):
                by.setdefault(h, set()).add(codec.js({k: v for k, v in r.items() if k != 'h'}))
        if any(len(v) > 1 for v in by.values()):
            run.violation(what + ':' + codec.key_of(c), 'the result depends on %s: %s' % (what, codec.describe(c)), codec.replay(c))


def threads(run, rng, p, tsan, n, extra=(), envv=None):
    """All operations in every thread; and one object written by all."""
    cs = op_cases(rng, p, n)
    for root, v in cases.random_values(rng, p, n // 2 + 2, 0.05):
        c = codec.S(p, root, v, rng.randint(0, 1), rng.randint(0, 1), FAC['S'], (0,), 'shared object')
        c['shared'] = 1
        cs.append(c)
    rng.shuffle(cs)
    e = dict(envv or {})
    if tsan:
        e['TSAN_OPTIONS'] = 'halt_on_error=0 exitcode=66 second_deadlock_stack=1'
        for c in cs:
            if c['op'] == 'D':
                # the guarded memory is not for this
                c['mask'] = c['mask'] & ~4
    lines = [codec.command(c) for c in cs]
    ans, end, err = codec.run_process(tsan or p.exe, lines, ['--threads', '8'] + list(extra), 600 if env.THOROUGH else 100, e)
    if 'WARNING: ThreadSanitizer' in err:
        i = err.index('WARNING: ThreadSanitizer')
        run.violation('race:' + p.schema.name, 'data race: ' + err[i:i + 1200], p.schema.proto() + '\n' + err[i:i + 6000] + '\n' + '\n'.join(lines)[:200000])
    elif end == 3:
        raise env.CheckError('driver refuses: ' + err[-500:])
    elif end != 0:
        run.violation('threads:' + p.schema.name, 'operations in several threads: %s %s' % (codec.crash_text(end), err[-800:]), p.schema.proto() + '\n' + '\n'.join(lines)[:200000])
    if end == 'timeout':
        run.hangs += 1
        run.stop_if_hung()
    if len(ans) == len(cs):
        for c, a in zip(cs, ans):
            c['res'] = json.loads(a)
        return [c for c in cs if c['res']]
    return []


def build_tsan(run, s):
    q = codec.Program(run, s, ['-fsanitize=thread', '-g1', '-O1'])
    q.schema = s
    d = os.path.join(run.dir, 'prog-' + s.name)
    cc, exe = os.path.join(d, 'driver.cc'), os.path.join(d, 'driver-tsan')
    r = env.sh(['clang++', '-std=c++11', '-O1', '-g1', '-w', '-fsanitize=thread', '-I' + env.HARNESS, '-I' + d, '-pthread', cc, '-o', exe], timeout=600)
    if r.returncode != 0:
        raise env.CheckError('the driver does not compile with ThreadSanitizer: ' + r.stderr[-800:])
    probe = env.sh([exe, '--threads', '2'], timeout=60, stdin='')
    if probe.returncode != 0:
        return None
    return exe


def check(run):
    rng = random.Random(env.SEED)
    ss = [schema.universal({}, 'u'), schema.small({'obfuscate_strings': True, 'number_names': True}, 't1'), schema.small({'cpp_use_lists': True, 'obfuscate_strings': True}, 't0')]
    ss += [schema.random_schema(random.Random(env.SEED * 31 + 7), 'r%d' % i) for i in range(6 if env.THOROUGH else 1)]
    progs = codec.build_programs(run, ss, ['-DDRV_GATED'])
    if not progs:
        return
    tsans = env.pmap(lambda p: build_tsan(run, p.schema), progs)
    run.progress('built')
    if not all(tsans):
        run.notes.append('ThreadSanitizer does not run here: data races left to the comparison of results')
    loc_dir, loc = make_locale(run)
    if loc is None:
        run.notes.append('no locale with a comma could be made here')
    gp = [p for p in progs if p.schema.name in ('u', 't1', 't0')]
    interleavings(run, rng, gp if env.THOROUGH else gp[:2])
    todo = []
    n = 150 if env.THOROUGH else 30
    for p, t in zip(progs, tsans):
        h = history(run, rng, p, n)
        consistent(run, h, 'earlier operations')
        todo += h
        todo += threads(run, rng, p, None, n)
        if t:
            todo += threads(run, rng, p, t, n)
        if loc:
            ev = {'LOCPATH': loc_dir}
            cs = op_cases(rng, p, n)
            todo += codec.execute(run, cs, ['--locale', loc], envv=ev)
            todo += threads(run, rng, p, None, n, ['--thread-locale', loc], ev)
            todo += threads(run, rng, p, None, n, ['--locale', loc, '--thread-locale', 'C'], ev)
    run.cov['locale'] = 1 if loc else 0
    run.cov['race_detector'] = sum(1 for t in tsans if t)
    for c in rng.sample(todo, min(3, len(todo))):
        run.sample(codec.show(c))
    codec.judge(run, [c for c in todo if 'res' in c])
