"""The schema compiler: cases, execution (library and command line tool), judgement by spec/ProtoTrace.tla, exploration."""
import hashlib, json, os, random, re, subprocess, time
from . import env, codec
from .env import CheckError, pmap

HARNESS = os.path.join(env.HARNESS, 'proto_dump.cc')
POS, NEG = ['pos'], ['neg']


def build(run, san=False):
    """The harness linked with the library of the working tree, or with an instrumented one."""
    lib, inc = run.sanitised()[1:] if san else run.libprotogen()
    exe = run.path('proto_dump_san' if san else 'proto_dump')
    r = env.sh(['g++', '-std=c++11', '-O1', '-o', exe, HARNESS] + (env.SAN if san else []) + ['-I' + d for d in inc] + [lib])
    if r.returncode != 0:
        raise CheckError('the harness does not build: ' + r.stderr[-2000:])
    return exe


def case(text, fac, note='', cli=False):
    return {'text': bytes(text), 'fac': fac, 'note': note, 'cli': cli}


def key_of(c):
    return 'schema:' + hashlib.sha1(c['text'] + ','.join(c['fac']).encode()).hexdigest()[:12]


def describe(c):
    return '%s text=%r lib=%s cli=%s' % (c['note'], c['text'][:300], codec.js(c.get('lib'))[:200], codec.js(c.get('cliout')))


def replay(c):
    return 'schema (latin-1):\n%s\n----\nhexadecimal: %s\nfacets: %s note: %s\nlibrary: %s\ncommand line: %s' % (
        c['text'].decode('latin-1'), c['text'].hex(), c['fac'], c['note'], codec.js(c.get('lib')), codec.js(c.get('cliout')))


def run_lib(run, exe, cases, chunk=500, timeout=60):
    work = [cases[i:i + chunk] for i in range(0, len(cases), chunk)]

    def one(part):
        i = bad = 0
        while i < len(part) and not run.hangs:
            ans, end, err = codec.run_process(exe, [c['text'].hex() for c in part[i:]], timeout=timeout)
            for c, a in zip(part[i:], ans):
                c['lib'] = json.loads(a)
            i += len(ans)
            if i >= len(part):
                break
            a2, e2, err2 = codec.run_process(exe, [part[i]['text'].hex()], timeout=timeout)
            if len(a2) == 1 and e2 == 0:
                part[i]['lib'] = json.loads(a2[0])
            else:
                part[i]['crash'] = codec.crash_text(e2) + ' ' + err2[-500:]
                if e2 == 'timeout':
                    run.hang('crash:' + key_of(part[i]), 'the compiler ' + part[i].pop('crash') + ': ' + describe(part[i]), replay(part[i]))
                    return
                bad += 1
            i += 1
            if bad > 5:
                break
    pmap(one, work)
    for c in cases:
        if 'crash' in c:
            run.violation('crash:' + key_of(c), 'the compiler ' + c['crash'] + ': ' + describe(c), replay(c))
    run.stop_if_hung()
    return [c for c in cases if 'lib' in c]


DIAG = re.compile(rb'^(.*):(\d+):(\d+): error: (.+)\n')


def run_cli(run, binary, cases, timeout=60):
    """The command line tool on each case that asks for it."""
    d = run.path('cli', 'x')
    d = os.path.dirname(d)

    def one(ic):
        i, c = ic
        if run.hangs:
            return
        f = os.path.join(d, 's%d.proto' % i)
        with open(f, 'wb') as o:
            o.write(c['text'])
        try:
            r = subprocess.run([binary, f], stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, timeout=timeout)
            m = DIAG.match(r.stderr)
            ok = m and m.group(1) == os.path.realpath(f).encode()
            c['cliout'] = {'run': 1, 'exit': r.returncode, 'diag': 1 if ok else 0, 'line': int(m.group(2)) if m else -1, 'col': int(m.group(3)) if m else -1}
            if r.returncode < 0:
                c['crash'] = codec.crash_text(r.returncode) + ' ' + r.stderr[-300:].decode('latin-1')
        except subprocess.TimeoutExpired:
            run.hang('crash:' + key_of(c), 'the compiler does not return: ' + describe(c), replay(c))
        os.remove(f)
    todo = [c for c in cases if c['cli']]
    pmap(one, enumerate(todo))
    for c in todo:
        if 'crash' in c:
            run.violation('crash:' + key_of(c), 'the compiler ' + c['crash'] + ': ' + describe(c), replay(c))
    run.stop_if_hung()
    run.cov['command_line_runs'] = run.cov.get('command_line_runs', 0) + len(todo)


NOCLI = {'run': 0, 'exit': 0, 'diag': 0, 'line': 0, 'col': 0}


def judge(run, cases):
    cases = sorted((c for c in cases if 'lib' in c and 'crash' not in c), key=lambda c: -len(c['text']))
    part, size = [], 0
    for c in cases:
        part.append(c)
        size += 1200 + 30 * len(c['text'])
        if size > 60000000:
            judge_part(run, part)
            part, size = [], 0
    if part:
        judge_part(run, part)


def judge_part(run, cases):
    t = time.time()
    cp = run.path('pcases-%d.ndjson' % len(os.listdir(run.dir)))
    env.write_ndjson(cp, [{'text': list(c['text']), 'fac': c['fac'], 'lib': c['lib'], 'cli': c.get('cliout', NOCLI)} for c in cases])
    res = run.tlc('ProtoTrace', env={'CASES': cp})
    if res.distinct != 2 * len(cases):
        raise CheckError('ProtoTrace: %d states for %d cases: %s' % (res.distinct, len(cases), res.out[-1500:]))
    run.cov['states'] += res.distinct
    run.cov['transitions'] += res.generated - len(cases)
    run.cov['traces_validated_against_impl'] += len(cases)
    for line in res.printed('BAD '):
        i, rest = line.split(' ', 1)
        c = cases[int(i) - 1]
        run.violation(key_of(c), '%s: %s' % (rest, describe(c)), replay(c) + '\nspecification: ' + rest)
    run.progress('ProtoTrace: %d cases, %.1fs' % (len(cases), time.time() - t))
    os.remove(cp)


def run_and_judge(run, cases):
    exe = build(run)
    seen, todo = set(), []
    for c in cases:
        k = (c['text'], tuple(c['fac']))
        if k not in seen:
            seen.add(k)
            todo.append(c)
    good = run_lib(run, exe, todo)
    run_cli(run, run.protogen(), good)
    run.progress('executed %d cases' % len(good))
    judge(run, good)
    for v in ('accepted', 'rejected'):
        run.cov[v] = run.cov.get(v, 0) + sum((c['lib']['st'] == 0) == (v == 'accepted') for c in good)
    return good


# ------------------------------------------------------------------ exploration

def explore(run, what, chunks, start=b'', maxlen=120, msgs=1, fields=1, deep=0, valid=0, timeout=600, cfg=None):
    p = run.path('pmc.json')
    env.write_json(p, {'chunks': [list(c) for c in chunks], 'start': list(start), 'len': maxlen, 'msgs': msgs, 'fields': fields, 'deep': deep, 'valid': valid,
                       'spacer': list(b' /* x ** " */\t// y /*\r\n')})
    r = run.tlc('ProtoMC', cfg, env={'MC': p}, timeout=timeout)
    out = []
    seen = set()
    for x in r.printed('CASE '):
        t, o = json.loads(x)
        t = bytes(t)
        if t not in seen:
            seen.add(t)
            out.append((t, o))
    run.cov['states'] += r.distinct
    run.cov['transitions'] += r.generated
    run.cov['model_states_explored'] = run.cov.get('model_states_explored', 0) + r.distinct
    run.progress('ProtoMC %s: %d states, %d transitions, %d texts' % (what, r.distinct, r.generated, len(out)))
    return out


def canon_opts(o):
    return sorted(json.dumps(x) for x in o)


def canon(opts, msgs):
    return [canon_opts(opts), [[m['n'], m['p'], canon_opts(m['o']), [[f['n'], f['i'], f['t'], f['r'], f['x'], canon_opts(f['o'])] for f in m['f']]] for m in msgs]]


def verdict(o, c):
    """The judgement of ProtoTrace, for texts whose outcome TLC has printed."""
    l, t, fac = c['lib'], c.get('cliout', NOCLI), c['fac']
    if o['v'] in ('ok', 'any'):
        if 'pos' in fac and o['v'] == 'ok' and (l['st'] != 0 or (t['run'] and t['exit'] != 0)):
            return 'valid schema rejected'
        if 'pos' in fac and not o['odd'] and l['st'] != 1 and canon(o['opts'], o['msgs']) != canon(l['opts'], l['msgs']):
            return 'misunderstood'
        return None
    if 'neg' not in fac:
        return None
    if l['st'] == 0 or (t['run'] and t['exit'] == 0):
        return 'invalid schema accepted'
    if t['run'] and (t['exit'] != 1 or not t['diag']):
        return 'no diagnostic'
    if o['v'] == 'place':
        for x in (l, t):
            if (x is l or t['run']) and not (o['el'], o['ec']) <= (x['line'], x['col']) <= (o['hl'], o['hc']):
                return 'position'
    return None


def replay_explored(run, exe, texts, fac, every=200):
    """The explored texts in the real compiler; every so many of them also with the command line tool."""
    cs = []
    for i, (t, o) in enumerate(texts):
        c = case(t, fac, 'explored', cli=i % every == 0)
        c['o'] = o
        cs.append(c)
    good = run_lib(run, exe, cs, chunk=4000)
    run_cli(run, run.protogen(), good)
    for c in good:
        r = verdict(c['o'], c) if 'crash' not in c else None
        if r:
            run.violation(key_of(c), '%s, specified %s: %s' % (r, codec.js(c['o'])[:200], describe(c)), replay(c))
    run.cov['traces_validated_against_impl'] += len(good)
    run.progress('replayed %d texts' % len(good))


# ------------------------------------------------------------------ chunks

GRAMMAR = [b'message ', b'package ', b'syntax ', b'option ', b'repeated ', b'optional ', b'int32 ', b'bytes ', b'enum ', b'map ', b'true ', b'A ', b'b ', b'A.', b'1 ', b'19000 ', b'0 ',
           b'"proto3"', b'"proto2"', b'"', b'=', b'{', b'}', b';', b',', b'<', b'[', b']', b'\n', b'//', b'/*', b'*/', b'/', b'-', b'\x00', b'\xc3']

# whole declarations: packages, resolution of names, duplicates, options
DECLS = [b'package p;', b'package p.q;', b'package q;', b'message A {', b'message B {', b'A a = 1;', b'B a = 2;', b'p.A b = 2;', b'q.A b = 1;', b'p.q.B c = 1;', b'}']
OPTS = [b'option number_names = true;', b'option number_names = false;', b'option number_names = "true";', b'option obfuscate_strings = 1;', b'option cpp_use_lists = on;', b'option x.y = name;',
        b'message A {', b'int32 a = 1 [', b'int32 b = 2 [', b'];', b'bool c = 3;', b',', b'transient = true', b'transient = false', b'transient = 1', b'name = "b"', b'name = "c"', b'name = "q\\"', b'name = b', b'other="x"', b'}']


# ------------------------------------------------------------------ generators

WORDS = 'message repeated string enum double float bool int32 int64 uint32 uint64 sint32 sint64 fixed32 fixed64 sfixed32 sfixed64 bytes package syntax map option true false optional import oneof reserved extend service rpc returns stream weak public required group extensions to max'.split()
SCALARS = 'string double float bool int32 int64 uint32 uint64 sint32 sint64 fixed32 fixed64 sfixed32 sfixed64 bytes'.split()
FIELD_NAMES = ['a', 'b', 'c', 'id', 'name', 'value', 'x1', 'camelCase', 'snake_case', 'Upper', '_u', '__', 'message', 'package', 'int32_', 'string1', 'Message', 'f' * 40, 'transient', 'on', 'proto3', 'z9_']
MSG_NAMES = ['A', 'B', 'C', 'D', 'Foo', 'Bar', 'message', 'package', 'Long_Name9', 'a', '_', 'M1', 'x', 'Int32', 'p', 'q']
PACKAGES = ['p', 'q', 'p.q', 'p.q.r', 'q.p', 'p.p', 'com.example_1.x9', '_._']


class Layout:
    """How the tokens of a text are laid out."""

    def __init__(self, rng):
        self.rng = rng
        self.style = rng.choice(['tight', 'plain', 'wild', 'wild', 'lines'])

    def gap(self, must):
        r = self.rng
        if self.style == 'tight':
            return ' ' if must else ''
        if self.style == 'plain':
            return ' '
        if self.style == 'lines':
            return '\n' if r.random() < 0.7 else '\r\n' if r.random() < 0.5 else ' \t '
        o = []
        for _ in range(r.choice([0, 0, 1, 1, 2, 3])):
            o.append(r.choice([' ', '\t', '\n', '\r\n', '\r', '  ', '\n\n', '//\n', '// c "x" /* \n', '/**/', '/* * / // \n */', '/***/', '/*"*/', '// é\n', '/* {};\n\n */', '//\r\n', '/*/ */', '// \\\n', '/*\0*/']))
        s = ''.join(o)
        return s if s or not must else ' '

    def text(self, toks, end=True):
        o = []
        prev = ''
        for t in toks:
            must = bool(prev) and (prev[-1].isalnum() or prev[-1] in '_.') and (t[:1].isalnum() or t[:1] in '_.')
            o.append(self.gap(must) if o or self.rng.random() < 0.5 else '')
            o.append(t)
            prev = t
        if end:
            o.append(self.gap(False))
            if self.rng.random() < 0.1:
                o.append('// last')
        return ''.join(o)


def random_number(rng):
    x = rng.random()
    if x < 0.6:
        return rng.randint(1, 60)
    return rng.choice([1, 2, 536870911, 536870910, 18999, 20000, 127, 128, 255, 256, 65535, 65536, 2147483, 99999999, rng.randint(1, 18999), rng.randint(20000, 536870911)])


def random_option(rng, field):
    n = rng.choice(['transient', 'name', 'deprecated', 'json', 'a.b.c', 'packed'] if field else ['number_names', 'obfuscate_strings', 'cpp_use_lists', 'optimize_for', 'java_package', 'x.y'])
    if n in ('transient', 'number_names', 'obfuscate_strings', 'cpp_use_lists'):
        v = rng.choice(['true', 'false'])
    elif n == 'name':
        v = '"%s"' % rng.choice(['n1', 'n2', 'n-3', 'ü', '', ' x ', '//', '/*', 'a.b', '$1$', ';', '{}', 'tab\u007f'])
    else:
        v = rng.choice(['true', 'false', '1', '0', '99999999999999999999', '"text"', '""', '"// no"', 'word', 'a.b', 'x9._y'])
    return n, v


class RandomSchema:
    """A valid schema as tokens (the specification decides whether it really is)."""

    def __init__(self, rng, big=False, names=MSG_NAMES):
        self.rng = rng
        r = rng
        nm = r.choice([0, 1, 1, 2, 3, 4, 6] if not big else [8, 20])
        self.msgs = []
        pkgs = [''] + r.sample(PACKAGES, 3) if r.random() < 0.5 else ['', r.choice(PACKAGES)]
        pk, used = '', set()
        self.order = []
        if r.random() < 0.9:
            self.order.append(['syntax', '=', '"proto3"', ';'])
        for _ in range(r.choice([0, 0, 1, 2])):
            n, v = random_option(r, False)
            self.order.append(['option', n, '=', v, ';'])
        decl = []
        for i in range(nm):
            if r.random() < 0.4 or (i == 0 and r.random() < 0.5):
                pk = r.choice([p for p in pkgs if p] or ['p'])
                decl.append(('package', pk))
            n = r.choice(names)
            q = (pk + '.' if pk else '') + n
            if q in used:
                n = '%s%d' % (n, i)
                q = (pk + '.' if pk else '') + n
            used.add(q)
            decl.append(('message', n, pk, q))
        self.rank = [d for d in decl if d[0] == 'message']
        perm = self.rank[:]
        r.shuffle(perm)
        pos = {d[3]: i for i, d in enumerate(perm)}
        for d in decl:
            if d[0] == 'package':
                self.order.append(['package', d[1], ';'])
            else:
                self.order.append(self.message(d, [e for e in perm if pos[e[3]] < pos[d[3]]]))
        if r.random() < 0.15:
            n, v = random_option(r, False)
            self.order.append(['option', n, '=', v, ';'])

    def type_of(self, d, lower):
        r = self.rng
        lower = [e for e in lower if e[1] not in WORDS]
        if not lower or r.random() < 0.6:
            return r.choice(SCALARS)
        e = r.choice(lower)
        cands = [e[3]]
        # a suffix of the qualified name may do
        parts = e[3].split('.')
        for k in range(1, len(parts)):
            if d[2].startswith('.'.join(parts[:k])):
                cands.append('.'.join(parts[k:]))
        if e[2] == d[2]:
            cands += [e[1]] * 3
        return r.choice(cands)

    def message(self, d, lower):
        r = self.rng
        t = ['message', d[1], '{']
        names = r.sample(FIELD_NAMES, r.choice([0, 1, 1, 2, 3, 5, 8]))
        nums = set()
        for n in names:
            k = random_number(r)
            if k in nums:
                continue
            nums.add(k)
            if r.random() < 0.05:
                o, v = random_option(r, False)
                t += ['option', o, '=', v, ';']
            x = r.random()
            if x < 0.3:
                t.append('repeated')
            elif x < 0.45:
                t.append('optional')
            t += [self.type_of(d, lower), n, '=', str(k)]
            if r.random() < 0.3:
                t.append('[')
                seen = set()
                for j in range(r.choice([1, 1, 2, 3])):
                    o, v = random_option(r, True)
                    if o in seen:
                        continue
                    seen.add(o)
                    if j:
                        t.append(',')
                    t += [o, '=', v]
                t.append(']')
            t.append(';')
        return t + ['}']

    def tokens(self):
        return [t for d in self.order for t in d]


def some_token(rng):
    return rng.choice(WORDS + ['=', '{', '}', ';', ',', '<', '>', '[', ']', '(', ')', '-', '+', '.', ':', "'", '"', '/', '//', '/*', '*/', '\\', '1', '0', '19000', '19999', '536870912', '4294967297', '18446744073709551617', '0x10', '1.5', '-1', '1e3',
                                   'x', 'A', 'a.b', 'a..b', 'a.', '.a', 'a.1', '"s"', '"s', "'s'", '"proto2"', '"a\\"b"', '\0', '\xff', '\u00e9', '#', '@', '$', '\x0b', '1a', 'transient', 'name'])


def damage(rng, toks):
    t = list(toks)
    for _ in range(1 if rng.random() < 0.8 else 2):
        x = rng.random()
        if not t:
            t = [some_token(rng)]
            continue
        i = rng.randrange(len(t))
        if x < 0.25:
            del t[i]
        elif x < 0.5:
            t[i] = some_token(rng)
        elif x < 0.7:
            t.insert(i, some_token(rng))
        elif x < 0.8:
            j = rng.randrange(len(t))
            t[i], t[j] = t[j], t[i]
        elif x < 0.9:
            t.insert(i, t[i])
        else:
            t[i] = rng.choice(t)
    return t


def damage_bytes(rng, b):
    b = bytearray(b)
    for _ in range(rng.choice([1, 1, 2])):
        x = rng.random()
        i = rng.randrange(len(b) + 1)
        if x < 0.4:
            del b[i:i + rng.choice([1, 1, 2, 8])]
        elif x < 0.7:
            b[i:i] = rng.choice([b'"', b'/', b'*', b'\n', b'\0', b'.', b';', b'}', b'{', b'/*', b'*/', b'//', bytes([rng.randrange(256)])])
        elif i < len(b):
            b[i] = rng.randrange(256)
    return bytes(b)


def semantic(rng):
    """Schemas about one rule each: numbers, duplicates, references, cycles, sizes, options."""
    out = []

    def add(s):
        out.append(s)
    H = 'syntax = "proto3";\n'
    for n in [0, 1, 2, 18999, 19000, 19001, 19500, 19999, 20000, 536870910, 536870911, 536870912, 536870913, 1073741824, 2147483647, 2147483648, 4294967295, 4294967296, 4294967297, 4294967297 + 19000, 9223372036854775807, 9223372036854775808,
              18446744073709551615, 18446744073709551616, 18446744073709551617, 10 ** 30, 2 ** 64 + 5, 2 ** 63 + 7, 2 ** 32 + 536870911]:
        add(H + 'message M {\n  int32 a = %d;\n}\n' % n)
        add(H + 'message M {\n  int32 q = 7; string a =\n %d [transient=true];\n}\n' % n)
    for v in ['proto2', 'proto3', 'proto', 'Proto3', 'proto33', '', ' proto3', 'proto3 ', 'PROTO3', 'proto4', 'editions', '3']:
        add('syntax = "%s";' % v)
        add('\n\n  syntax="%s" ;\nmessage A { int32 a = 1; }' % v)
    # duplicates at a distance
    for i in range(8):
        for j in range(8):
            if i < j:
                fs = ['int32 f%d = %d;' % (k, k + 1) for k in range(8)]
                add(H + 'message M {%s}' % '\n'.join(fs[:j] + ['bool f%d = 99;' % i] + fs[j:]))
                add(H + 'message M {%s}' % '\n'.join(fs[:j] + ['repeated bytes x = %d;' % (i + 1)] + fs[j:]))
    fs = ['int32 f%d = %d;' % (k, k + 1) for k in range(64)]
    far = [(0, 63), (0, 17), (1, 34), (31, 63), (0, 33), (46, 63), (15, 16), (62, 63), (0, 62)] + [tuple(sorted(rng.sample(range(64), 2))) for _ in range(24)]
    for i, j in far:
        pre, post = fs[:j], fs[j + 1:] if rng.random() < 0.5 else []
        for x in ('bool f%d = 99;' % i, 'repeated bytes x = %d;' % (i + 1), 'bool g [name = "f%d"] = 99;' % i, 'bool g = 99 [name = "f%d"];' % i, 'bool f%d = 99 [transient = true];' % i, 'string x = %d [transient = true];' % (i + 1)):
            add(H + 'message M {' + '\n'.join(pre + [x] + post) + '}')
    for n, i in ((20, 0), (40, 3), (70, 0), (130, 64), (260, 1), (300, 299)):
        l = ['message M%d { %s a = 1; }' % (k, 'M%d' % (k - 1) if k and k % 3 else 'bool') for k in range(n)]
        add(H + '\n'.join(l))
        add(H + '\n'.join(l + ['message M%d { int32 z = 1; }' % i]))
        add(H + 'package a.b;' + '\n'.join(l + ['package a; message M%d { int32 z = 1; }' % i]))
        add(H + '\n'.join(l + ['message Z { M%d z = 1; M%d y = 2; Q x = 3; }' % (i, n - 1)]))
    # names that differ late, or only in case
    for n in (15, 16, 31, 32, 63, 64, 127, 128, 255, 256, 1000, 5000):
        a = 'n' * n
        for x, y in ((a + 'x', a + 'y'), (a, a + 'a'), (a, a[:-1] + 'N'), (a, a), ('N' + a[1:], a)):
            add(H + 'message M { int32 %s = 1; int32 %s = 2; }' % (x, y))
            add(H + 'message %s { int32 a = 1; } message M { %s m = 1; }' % (x, y))
            add(H + 'message %s { int32 a = 1; } message %s { int32 b = 1; }' % (x, y))
            add(H + 'package p.%s; message A { int32 a = 1; } package q; message B { p.%s.A a = 1; }' % (x, y))
            add(H + 'message M { int32 a = 1 [name = "%s"]; int32 b = 2 [name = "%s"]; }' % (x, y))
    ms = ['message M%d { bool a = 1; }' % k for k in range(5)]
    for i in range(5):
        for j in range(i + 1, 6):
            add(H + '\n'.join(ms[:j] + ['message M%d {}' % i] + ms[j:]))
            add(H + 'package p; ' + '\n'.join(ms[:j] + ['message M%d {}' % i] + ms[j:]))
            add(H + '\n'.join(ms[:j] + ['package q; message M%d {}' % i] + ms[j:]))
            add(H + 'package q; message M%d {} package z;' % i + '\n'.join(ms[:j] + ['package q;'] + ms[j:]))
    # references: every choice of packages for two or three messages and ways to name
    for pa in ['', 'p', 'p.q', 'q', 'p.q.r']:
        for pb in ['', 'p', 'p.q', 'q', 'p.q.r', 'r']:
            for ref in ['B', 'p.B', 'q.B', 'p.q.B', 'r.B', 'q.r.B', 'p.q.r.B', 'p.p.B', 'C', 'p']:
                a = ('package %s; ' % pa if pa else '') + 'message A { %s b = 1; }' % ref
                b = ('package %s; ' % pb if pb else '') + 'message B { int32 x = 1; }'
                if pa and pb or not pa:
                    add(H + a + ' ' + b)
                if pa and pb or not pb:
                    add(H + b + ' ' + a)
                if pa and pb:
                    add(H + 'message B {} ' + b + a)
                    add(H + a + b + 'package p; message %s {}' % ('B' if pb != 'p' else 'Z'))
    # cycles: rings of all lengths with tails, through every kind of field
    for n in (12, 40, 65, 129, 257):
        for order in (0, 1):
            l = ['message R%d { int32 v = 2; R%d n = 1; }' % (i, (i + 1) % n) for i in range(n)]
            l = l[::-1] if order else l
            add(H + '\n'.join(l))
            add(H + '\n'.join(l).replace('R0 n = 1', 'int32 n = 1'))
    for n in range(1, 7):
        for mod in ['', 'repeated ', 'optional ']:
            for tail in (0, 2):
                for order in (0, 1):
                    l = ['message R%d { int32 v = 2; %sR%d n = 1%s; }' % (i, mod if i == n - 1 else '', (i + 1) % n, rng.choice(['', ' [transient = true]'])) for i in range(n)]
                    l += ['message T%d { %s x = 1; }' % (i, 'R0' if i == 0 else 'T%d' % (i - 1)) for i in range(tail)]
                    add(H + '\n'.join(l[::-1] if order else l))
                    add(H + '\n'.join((l[::-1] if order else l)).replace('R%d n = 1' % 0, 'int32 n = 1'))
    # numbers of fields
    for n in (63, 64, 65, 66, 100, 128, 129):
        for t in ('', ' [transient = true]'):
            add(H + 'message S { bool z = 1; }\nmessage M {' + '\n'.join('%s f%d = %d%s;' % (SCALARS[i % 15], i, i + 1, t) for i in range(n)) + '}')
            add(H + 'message M {' + '\n'.join('int32 f%d = %d%s;' % (i, i + 1, t if i >= 64 else '') for i in range(n)) + '}\nmessage S { M z = 1; }')
    # JSON names
    fl = ['', 'option number_names = true;', 'option number_names = false;', 'option obfuscate_strings = true;', 'option cpp_use_lists = true;']
    for f in fl:
        for a, b in [('name = "x"', 'name = "x"'), ('name = "b"', ''), ('', 'name = "a"'), ('name = "b"', 'name = "a"'), ('name = "x", transient = true', 'name = "x"'), ('name = "x"', 'transient = true, name = "x"'),
                     ('name = "b", transient = false', ''), ('name = "b"', 'transient = true'), ('name = ""', 'name = ""'), ('name = ""', ''), ('name = "A"', 'name = "a"'), ('name = "x "', 'name = "x"'), ('name = "2"', ''), ('name = "1"', 'name = "2"'),
                     ('name = "\u00e9"', 'name = "\u00e9"'), ('name = "a\\b"', ''), ('name = "it\'s"', ''), ('name = "\t"', ''), ('name = "\x1f"', ''), ('name = "\x7f"', ''), ('name = "a\rb"', ''), ('name = true', ''), ('name = x', ''), ('name = 1', ''), ('name = a.b', ''), ('transient = "true"', ''), ('transient = 1', ''),
                     ('transient = yes', ''), ('transient = True', ''), ('transient = 0', ''), ('other = "\\"', ''), ('json.name = 3', 'name.x = true')]:
            br = lambda s: ' [' + s + ']' if s else ''
            add(H + f + 'message M { int32 a = 1%s; string m = 3; string b = 2%s; } message N { M a = 1; }' % (br(a), br(b)))
            add(f + 'message N { repeated M a = 1; }message M { bytes b = 2%s; M2 a = 1%s; } message M2 { int32 a = 1; }' % (br(b), br(a)))
    # which of the fields share their JSON name, and which of them have none
    alts = ['', ' [transient = true]', ' [name = "x"]', ' [name = "x", transient = true]', ' [name = "b"]']
    for x in alts:
        for y in alts:
            for z in alts:
                fs = ['int32 a = 1%s;' % x, 'string b = 2%s;' % y, 'bool c = 3%s;' % z]
                rng.shuffle(fs)
                add(H + 'message M { ' + '\n'.join(fs) + ' }')
    fs = ['int32 f%d = %d;' % (k, k + 1) for k in range(64)]
    for i, j in far:
        l = [x if k in (i, j) or rng.random() < 0.5 else x[:-1] + ' [transient = true];' for k, x in enumerate(fs)]
        l[j] = (l[j][:-2] + ', name = "f%d"];' if l[j][-2] == ']' else l[j][:-1] + ' [name = "f%d"];') % i
        add(H + 'message M {' + '\n'.join(l) + '}')
    # every byte in every place
    for b in range(256):
        for t in ('message M { int32 a = 1; } option o = "a@c"; message N { M a = 1; }', 'message M { // a@c\n int32 a = 1; }', 'message M { /* a@c */ int32 a = 1; }', 'message M { int32 a@c = 1; }', 'message M { int32 a = 1@; }', 'message M { int32 a = 1; }@', 'message M@{ M.@N a = 1; }'):
            out.append((H + t).encode().replace(b'@', bytes([b])))
    # two or three of the bytes that mean something, one after the other
    sp = [b'\\', b'"', b'/', b'*', b'\n', b'\r', b'\t', b'\0', b'.', b';', b'\xff', b' ', b'a', b"'", b'=', b'[', b'1', b'{']
    prng = random.Random(5)
    seqs = [a + b for a in sp for b in sp] + [b''.join(prng.choice(sp) for _ in range(prng.choice([3, 4, 5]))) for _ in range(150)]
    for s in seqs:
        for t in ('option o = "a@c"; message N { int32 a = 1; }', '// a@c\nmessage M { int32 a = 1; }', '/* a@c */ message M { int32 a = 1; }', 'message M { int32 a@c = 1; }', 'message M { int32 a = 1; }@'):
            out.append((H + t).encode().replace(b'@', s))
    for o in ('number_names', 'obfuscate_strings', 'cpp_use_lists', 'transient', 'name'):
        for v in ('true', 'false', '"true"', '1', '0', 'yes', 'TRUE', 'a.b', '""', '', '=', '-1', '{'):
            add(H + 'option %s = %s;\nmessage M { int32 a = 1; }' % (o, v))
            add(H + 'message M { option %s = %s;\n int32 a = 1; }' % (o, v))
            add(H + 'message M { int32 a = 1\n [%s = %s]; }' % (o, v))
            add('option %s = %s;' % (o, v))
    return [s if isinstance(s, bytes) else s.encode('utf-8', 'surrogateescape') for s in out]


def texts_of_repo():
    """Schemas that come with the repository."""
    out = []
    for root, dirs, files in os.walk(env.REPO):
        dirs[:] = [d for d in dirs if not d.startswith('.') and d != 'build']
        for f in sorted(files):
            if f.endswith('.proto'):
                b = open(os.path.join(root, f), 'rb').read()
                if len(b) < 20000:
                    out.append(b)
    return out


def valid_texts(rng, n):
    for i in range(n):
        s = RandomSchema(rng, big=rng.random() < 0.03)
        yield Layout(rng).text(s.tokens()).encode('utf-8', 'surrogateescape'), s


def encode(s):
    return s.encode('latin-1', 'replace') if all(ord(c) < 256 for c in s) else s.encode('utf-8', 'surrogateescape')
