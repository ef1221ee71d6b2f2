"""C21: what is generated depends only on the declarations."""
import hashlib, json, os, random, re, subprocess, time
from .. import env, proto, codec
from ..env import CheckError, pmap


def build(run):
    lib, inc = run.libprotogen()
    exe = run.path('header_dump')
    r = env.sh(['g++', '-std=c++11', '-O1', '-pthread', '-o', exe, os.path.join(env.HARNESS, 'header_dump.cc')] + ['-I' + d for d in inc] + [lib])
    if r.returncode != 0:
        raise CheckError('the harness does not build: ' + r.stderr[-2000:])
    return exe


# ------------------------------------------------------------------ variants of a schema

def segments(toks):
    """The tokens of a message: the head, the declarations in its body, the end."""
    b = toks.index('{')
    body, cur = [], []
    for t in toks[b + 1:-1]:
        cur.append(t)
        if t == ';':
            body.append(cur)
            cur = []
    return toks[:b + 1], body, toks[-1:]


def noise_option(rng):
    return ['option', rng.choice(['java_package', 'x.y', 'optimize_for', 'zz', 'obfuscate', 'cpp_namespace']), '=', rng.choice(['true', 'word', '"text"', '42', 'a.b']), ';']


def variant(rng, order, shuffle):
    """The same declarations written in another way."""
    out, seen = [], set()
    for d in order:
        if d[0] == 'option':
            seen.add(d[1])
    for d in order:
        if rng.random() < 0.15:
            o = noise_option(rng)
            if o[1] not in seen:
                seen.add(o[1])
                out += o
        if d[0] != 'message':
            out += d
            continue
        head, body, end = segments(d)
        if shuffle:
            rng.shuffle(body)
        names = set()
        out += head
        for s in body:
            s = list(s)
            if s[0] != 'option' and rng.random() < 0.3:
                if ']' in s:
                    used = {s[i - 1] for i in range(len(s)) if s[i] == '=' and i > s.index('[')}
                    x = rng.choice([('transient', 'false'), ('deprecated', 'true'), ('zz', '"x"')])
                    if x[0] not in used:
                        i = rng.choice([s.index('[') + 1, s.index(']')])
                        s[i:i] = [x[0], '=', x[1], ','] if i == s.index('[') + 1 else [',', x[0], '=', x[1]]
                else:
                    s[-1:-1] = ['['] + rng.choice([['transient', '=', 'false'], ['deprecated', '=', 'true'], ['zz', '=', '1']]) + [']']
            if rng.random() < 0.05:
                o = noise_option(rng)
                if o[1] not in names:
                    names.add(o[1])
                    out += o
            out += s
        out += end
    return out


def lay(rng, toks):
    return proto.Layout(rng).text(toks).encode('utf-8', 'surrogateescape')


OBF = [[], [['option', 'obfuscate_strings', '=', 'true', ';']], [['option', 'number_names', '=', 'true', ';']], [['option', 'cpp_use_lists', '=', 'true', ';'], ['option', 'obfuscate_strings', '=', 'true', ';']]]


def history(rng, n):
    """A file that is edited: texts of two or three schemas, in several forms, and texts that are not valid."""
    texts = []
    for k in range(n):
        s = proto.RandomSchema(rng, big=rng.random() < 0.05)
        have = {d[1] for d in s.order if d[0] == 'option'}
        order = [d for d in rng.choice(OBF) if d[1] not in have] + s.order
        base = [t for d in order for t in d]
        texts.append(lay(rng, base))
        for i in range(3):
            texts.append(lay(rng, variant(rng, order, True)))
        texts.append(lay(rng, variant(rng, order, False)))
        bad = lay(rng, proto.damage(rng, base))
        texts.append(bad)
        if rng.random() < 0.5:
            texts.append(bad[:rng.randrange(len(bad) + 1)])
    return texts


# ------------------------------------------------------------------ the tool

def environments(run, locale_dir, plain, other):
    """Ways to run the tool that must not matter: (program, arguments, environment, directory, output file, standard input)."""
    clean = {'PATH': '/usr/bin:/bin'}
    return [
        ('plain', plain, 'abs', None, '/', None, {}),
        ('relative, to a file', plain, 'rel', None, '.', 'new', {}),
        ('empty environment', plain, 'abs', {}, '/tmp', None, {}),
        ('dots, over an old file', plain, 'dots', None, '.', 'old', {}),
        ('locale', plain, 'abs', dict(clean, LC_ALL='xx_XX.UTF-8', LANG='xx_XX.UTF-8', LOCPATH=locale_dir, TZ='Asia/Tokyo', LANGUAGE='de'), '/', None, {}),
        ('dirty memory', plain, 'abs', dict(clean, MALLOC_PERTURB_='165', MALLOC_ARENA_MAX='1'), '/', None, {}),
        ('dirty memory 2', plain, 'rel', dict(clean, MALLOC_PERTURB_='90', HOME='/nonexistent', USER='nobody', LOGNAME='x', COLUMNS='20', TERM='dumb', SOURCE_DATE_EPOCH='1', DEBUG='1', VERBOSE='1'), '.', None, {}),
        ('another build', other, 'abs', dict(clean, ASAN_OPTIONS='detect_leaks=0'), '/', None, {}),
        ('through a link', plain, 'link', None, '/', 'new', {}),
        ('another name', plain, 'abs', None, '/', None, {'argv0': 'xyz'}),
    ]


def tool_events(run, d, texts, envs, rng, per):
    """Compiles each text several times in its file and notes what came out."""
    f = os.path.join(d, 'schema.proto')
    link = os.path.join(d, 'other name.x')
    os.symlink(f, link)
    events = []
    plan = [(t, e) for t in range(len(texts)) for e in [0] + rng.sample(range(1, len(envs)), per)]
    rng.shuffle(plan)
    for t, e in plan:
        if run.hangs:
            break
        what, prog, how, en, cwd, out, more = envs[e]
        with open(f, 'wb') as o:
            o.write(texts[t])
        if rng.random() < 0.3:
            os.utime(f, (rng.randrange(10 ** 9), rng.randrange(2 * 10 ** 9)))
        path = {'abs': f, 'rel': 'schema.proto', 'dots': './/../%s/./schema.proto' % os.path.basename(d), 'link': link}[how]
        args = [more.get('argv0', prog), path]
        to = os.path.join(d, 'out.hh')
        if out:
            if os.path.exists(to):
                os.remove(to)
            if out == 'old':
                with open(to, 'wb') as o:
                    o.write(b'x' * 300000)
            args.append(to)
        try:
            r = subprocess.run(args, executable=prog, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=60, env=en, cwd=d if cwd == '.' else cwd)
        except subprocess.TimeoutExpired:
            run.hang('hang:' + hashlib.sha1(texts[t]).hexdigest()[:12], 'the tool does not return (%s)' % what, texts[t].decode('latin-1'))
            continue
        if r.returncode == 0:
            b = open(to, 'rb').read() if out else r.stdout
            dig = 'H%d-%s' % (len(b), hashlib.sha1(b).hexdigest())
        else:
            dig = 'E%d-%s' % (r.returncode, hashlib.sha1(r.stderr).hexdigest())
        events.append({'t': t + 1, 'w': 'tool', 'd': dig, 'kept': 1, 'how': what})
    return events


# ------------------------------------------------------------------ the library

def lib_events(run, exe, path, texts, scripts, args=(), how='', envv=None):
    """Histories (lists of steps over texts) in one process."""
    hx = [t.hex() for t in texts]
    ph = path.encode().hex()
    lines = []
    for s in scripts:
        if s[0] == 'threads':
            lines.append('threads ' + ' '.join('C:%s:%s' % (ph, hx[t]) for t in s[1]))
        else:
            lines.append(' '.join('P%d:%s:%s' % (k, ph, hx[t]) if op == 'P' else '%s%d' % (op, k) for op, k, t in s))
    if run.hangs:
        return []
    ans, end, err = codec.run_process(exe, lines, args, timeout=300 if env.THOROUGH else 120, envv=envv)
    if len(ans) != len(lines) or end != 0:
        at = min(len(ans), len(lines) - 1)
        if end == 'timeout':
            run.hangs += 1
        run.violation('crash:' + hashlib.sha1(lines[at].encode()).hexdigest()[:12], 'the library %s in a history (%s)' % (codec.crash_text(end), how), lines[at] + '\n' + err[-800:])
    events = []
    for s, a in zip(scripts, ans):
        w = a.split(' ')
        if s[0] == 'threads':
            for t, x in zip(s[1], w):
                events.append({'t': t + 1, 'w': 'lib', 'd': x.rstrip('!'), 'kept': 0 if x.endswith('!') else 1, 'how': how + ' threads'})
            continue
        slot = {}
        for (op, k, t), x in zip(s, w):
            kept = 0 if x.endswith('!') else 1
            x = x.rstrip('!')
            if op == 'P':
                slot[k] = t if x == 'ok' else None
                if x != 'ok' or not kept:
                    events.append({'t': t + 1, 'w': 'lib', 'd': x, 'kept': kept, 'how': how})
                    if x == 'ok':
                        events.pop()
                        events.append({'t': t + 1, 'w': 'lib', 'd': 'stream', 'kept': 0, 'how': how})
            elif op == 'G' and slot.get(k) is not None:
                events.append({'t': slot[k] + 1, 'w': 'lib', 'd': x, 'kept': kept, 'how': how})
    return events


def random_script(rng, n):
    s, held = [], set()
    for _ in range(40):
        x = rng.random()
        if x < 0.45 or not held:
            k = rng.randrange(4)
            if k in held and rng.random() < 0.5:
                s.append(('X', k, 0))
            s.append(('P', k, rng.randrange(n)))
            held.add(k)
        else:
            k = rng.choice(sorted(held))
            if x < 0.9:
                s += [('G', k, 0)] * rng.choice([1, 1, 2, 3])
            else:
                s.append(('X', k, 0))
                held.discard(k)
    return s


def judge(run, cases):
    cp = run.path('gcases.ndjson')
    env.write_ndjson(cp, [{'texts': [list(t) for t in c['texts']], 'events': [{k: e[k] for k in ('t', 'w', 'd', 'kept')} for e in c['events']]} for c in cases])
    res = run.tlc('GenerationTrace', env={'CASES': cp})
    run.cov['states'] += res.distinct
    run.cov['transitions'] += res.generated - len(cases)
    ends = keys = evs = 0
    for line in res.printed('KEYS '):
        i, k, n = map(int, line.split())
        ends += 1
        keys += k
        evs += n
    for line in res.printed('BAD '):
        i, k, why = line.split(' ', 2)
        ends += 1
        c = cases[int(i) - 1]
        e = c['events'][int(k) - 1]
        m = re.search(r'event (\d+)', why)
        e0 = c['events'][int(m.group(1)) - 1] if m else e
        t, t0 = c['texts'][e['t'] - 1], c['texts'][e0['t'] - 1]
        run.violation('header:' + hashlib.sha1(t + t0 + e['how'].encode()).hexdigest()[:12], '%s: %s (%s) gave %s, %s (%s) gave %s; text %r and %r' % (why, e['w'], e['how'], e['d'], e0['w'], e0['how'], e0['d'], t[:200], t0[:200]),
                      '%s\n%s %s: %s\n%s\n----\n%s %s: %s\n%s' % (why, e['w'], e['how'], e['d'], t.decode('latin-1'), e0['w'], e0['how'], e0['d'], t0.decode('latin-1')))
    if ends != len(cases):
        raise CheckError('GenerationTrace: %d of %d histories: %s' % (ends, len(cases), res.out[-1500:]))
    run.cov['traces_validated_against_impl'] += len(cases)
    run.cov['events'] = run.cov.get('events', 0) + evs
    run.cov['events_compared'] = run.cov.get('events_compared', 0) + evs - keys
    run.progress('GenerationTrace: %d histories, %d events, %d results' % (len(cases), evs, keys))


def explored(run, exe, texts, classes, slots, depth):
    """Every history of the library within the bounds."""
    p = run.path('gmc.json')
    env.write_json(p, {'class': classes, 'slots': slots, 'depth': depth})
    r = run.tlc('Generation', env={'MC': p})
    run.cov['states'] += r.distinct
    run.cov['transitions'] += r.generated
    scripts = []
    for x in r.printed('CASE '):
        c = json.loads(x)
        scripts.append([(op, s - 1, max(0, t - 1)) for op, s, t in c['d']])
    run.progress('Generation: %d histories' % len(scripts))
    path = os.path.join(run.dir, 'x.proto')
    parts = [scripts[i::env.JOBS] for i in range(env.JOBS)]
    ev = pmap(lambda s: lib_events(run, exe, path, texts, s, how='explored') if s else [], parts)
    return [{'texts': texts, 'events': compact(sum(ev, []))}]


def compact(events):
    """Events that say the same once."""
    seen, out = set(), []
    for e in events:
        k = (e['t'], e['w'], e['d'], e['kept'])
        if k not in seen:
            seen.add(k)
            out.append(e)
    return out


def check(run):
    from . import c18
    rng = random.Random(env.SEED)
    exe = build(run)
    plain = run.protogen()
    other = run.sanitised()[0]
    loc_dir, loc = c18.make_locale(run)
    envs = environments(run, loc_dir or '/', plain, other)
    a = [b'syntax="proto3"; option obfuscate_strings = true; message A { int32 b = 1000; string a = 1234567 [name = "x y"]; } message B { repeated A q = 20000; }',
         b'option obfuscate_strings = true; /* */ message A { int32 b = 1000 [transient = false]; string a = 1234567 [name="x y"]; }\nmessage B\n{ repeated .A q = 20000; }',
         b'option obfuscate_strings = true; // c\n message A { int32 b = 1000; string a = 1234567 [name="x y"]; }\r\n option zz = 1; message B\n{ repeated A q = 20000; }',
         b'package p; message C { bytes a = 5; double b = 536870911; } message A { C c = 1; p.C d = 2; }',
         b'message A { A a = 1; }']
    cases = explored(run, exe, a, [1, 0, 1, 2, 0], 2, 6 if env.THOROUGH else 5)
    hs = [history(rng, rng.choice([1, 2])) for _ in range(1500 if env.THOROUGH else 150)]
    hs.append([t for t in proto.texts_of_repo() for _ in (0, 1)][:40])
    start = time.time()
    base = os.path.dirname(run.path('files', 'x'))

    def one(ih):
        i, texts = ih
        r = random.Random(env.SEED * 1000 + i)
        d = os.path.join(base, 'h%d' % i)
        os.makedirs(d)
        ev = tool_events(run, d, texts, envs, r, 4)
        path = os.path.join(d, 'lib.proto')
        n = len(texts)
        scripts = [[x for t in range(n) for x in (('P', 0, t), ('G', 0, 0), ('G', 0, 0), ('X', 0, 0))]] + [random_script(r, n) for _ in range(6)]
        scripts += [('threads', [r.randrange(n) for _ in range(8)]) for _ in range(3)]
        ev += lib_events(run, exe, path, texts, scripts, how='library')
        ev += lib_events(run, exe, path, texts, scripts[:2], ['grouping'], 'library, locale with grouping')
        if loc:
            ev += lib_events(run, exe, path, texts, scripts[:2] + scripts[-1:], ['environment'], 'library, locale', {'LC_ALL': loc, 'LOCPATH': loc_dir, 'MALLOC_PERTURB_': '90'})
        return {'texts': texts, 'events': ev}
    cs = pmap(one, enumerate(hs))
    run.stop_if_hung()
    # again, later
    time.sleep(max(0, 1.2 - (time.time() - start)))
    for i, c in enumerate(cs):
        if i % 8 == 0:
            d = os.path.join(base, 'h%d' % i)
            os.remove(os.path.join(d, 'other name.x'))
            c['events'] += tool_events(run, d, c['texts'], envs, rng, 1)
    run.progress('%d histories executed' % len(cs))
    run.sample({'texts': [t.decode('latin-1')[:200] for t in cs[0]['texts'][:3]], 'events': cs[0]['events'][:6]})
    judge(run, cases + cs)
    if run.cov['events_compared'] < run.cov['events'] // 2:
        raise CheckError('too few events were comparable')
