"""C13: the compiler terminates cleanly on every input; so does deserialisation."""
import os, random, resource, subprocess, time
from .. import env, gen, schema, codec, cases, decmc, proto

ASAN = {'ASAN_OPTIONS': 'detect_leaks=0:allocator_may_return_null=0:max_allocation_size_mb=4096'}
H = b'syntax = "proto3";\n'


def chain(n, up):
    l = [b'message M%d { M%d a = 1; int32 b = 2; }' % (i, i + 1) for i in range(n)] + [b'message M%d { int32 b = 2; }' % n]
    return H + b'\n'.join(l[::-1] if up else l)


def diamond(n):
    l = [b'message M%d { M%d a = 1; repeated M%d b = 2; M%d c = 3; }' % (i, i + 1, i + 1, i + 1) for i in range(n)] + [b'message M%d { int32 b = 2; }' % n]
    return H + b'\n'.join(l)


def ring(n):
    return H + b'\n'.join(b'message M%d { M%d a = 1; }' % (i, (i + 1) % n) for i in range(n))


def dense(n):
    """Every message contains later ones."""
    l = []
    for i in range(n):
        l.append(b'message M%d {' % i + b''.join(b' M%d f%d = %d;' % (j, j, k + 1) for k, j in enumerate(range(i + 1, min(n, i + 60)))) + b'}')
    return H + b'\n'.join(l)


def clique(n):
    return H + b'\n'.join(b'message M%d {' % i + b''.join(b' M%d f%d = %d;' % (j, j, j + 1) for j in range(min(n, 60)) if j != i) + b'}' for i in range(n))


# growing schemas: (name, text of size n, smaller n for the specification, larger n)
SCHEMAS = [
    ('blank', lambda n: b' \t\r\n' * n, 5, 500000),
    ('line comments', lambda n: b'// x\n' * n, 5, 300000),
    ('one line comment', lambda n: b'//' + b'x' * n, 5, 2000000),
    ('block comment', lambda n: b'/*' + b'* / x\n' * n + b'*/', 5, 300000),
    ('open comment', lambda n: b'/*' + b'*' * n, 5, 2000000),
    ('open comments', lambda n: b'/*' * n, 5, 500000),
    ('slashes', lambda n: b'/' * n, 5, 1000000),
    ('name', lambda n: H + b'message ' + b'x' * n + b'{ int32 ' + b'y' * n + b' = 1; }', 20, 300000),
    ('number', lambda n: H + b'message A { int32 x = ' + b'9' * n + b'; }', 20, 1000000),
    ('zeros', lambda n: H + b'message A { int32 x = 1' + b'0' * n + b'; }', 20, 1000000),
    ('string', lambda n: b'syntax = "' + b'z' * n + b'";', 20, 1000000),
    ('open string', lambda n: b'syntax = "' + b'z' * n, 20, 2000000),
    ('option value', lambda n: H + b'option x = "' + b'z' * n + b'"; message A { bool a = 1 [x = "' + b'%' * n + b'"]; }', 20, 500000),
    ('json name', lambda n: H + b'message A { bool a = 1 [name = "' + b'$1$' * n + b'"]; }', 20, 100000),
    ('json name obfuscated', lambda n: H + b'option obfuscate_strings = true; message A { bool a = 1 [name = "' + b'\xc3\xa9' * n + b'"]; }', 20, 50000),
    ('qualified type', lambda n: H + b'message A { x' + b'.x' * n + b' a = 1; }', 8, 100000),
    ('deep package', lambda n: H + b'package x' + b'.x' * n + b'; message A { int32 a = 1; }', 8, 60000),
    ('deep package, reference', lambda n: H + b'package x' + b'.x' * n + b'; message A { B a = 1; } message B { int32 b = 1; }', 8, 15000),
    ('deep package, unknown', lambda n: H + b'package x' + b'.x' * n + b'; message A { B a = 1; }', 8, 30000),
    ('dots', lambda n: b'package ' + b'.' * n, 8, 1000000),
    ('open packages', lambda n: b'package a;' * n, 8, 100000),
    ('syntaxes', lambda n: H * n, 8, 50000),
    ('options', lambda n: b''.join(b'option o%d = %d;' % (i, i) for i in range(n)), 8, 50000),
    ('field options', lambda n: H + b'message A { int32 a = 1 [' + b','.join(b'o%d = %d' % (i, i) for i in range(n)) + b']; }', 8, 50000),
    ('empty messages', lambda n: H + b''.join(b'message M%d {}' % i for i in range(n)), 8, 30000),
    ('messages', lambda n: H + b''.join(b'message M%d {int32 a = 1; repeated string b = 2;}' % i for i in range(n)), 8, 20000),
    ('same message', lambda n: H + b'message A {}' * n, 8, 200000),
    ('64 fields', lambda n: H + b'message A {' + b''.join(b'int32 f%d = %d;' % (i, i + 1) for i in range(min(n, 64))) + b'}', 8, 64),
    ('fields', lambda n: H + b'message A {' + b''.join(b'int32 f%d = %d;' % (i, i + 20001) for i in range(n + 60)) + b'}', 8, 40000),
    ('chain', lambda n: chain(n, 0), 8, 30000),
    ('chain upwards', lambda n: chain(n, 1), 8, 30000),
    ('diamond', diamond, 8, 3000),
    ('dense', dense, 8, 400),
    ('ring', ring, 8, 60000),
    ('self', lambda n: H + b'message A { int32 x = 1; } ' + b''.join(b'message M%d { A a = 1; }' % i for i in range(n)) + b'message Z { Z z = 1; }', 8, 30000),
    ('clique', clique, 6, 60),
    ('open braces', lambda n: b'message A ' + b'{' * n, 8, 1000000),
    ('close braces', lambda n: b'}' * n, 8, 1000000),
    ('nested messages', lambda n: b'message A {' * n, 8, 300000),
    ('brackets', lambda n: b'message A { int32 a = 1 ' + b'[' * n, 8, 1000000),
    ('repeated', lambda n: b'message A { ' + b'repeated ' * n, 8, 200000),
    ('quotes', lambda n: b'"' * n, 8, 1000000),
    ('zero bytes', lambda n: b'\0' * n, 8, 1000000),
    ('high bytes', lambda n: b'\xff\xfe' * n, 8, 1000000),
    ('many errors', lambda n: b'x = ;' * n, 8, 300000),
]


def nest(a, n, b=b''):
    return a * n + b


# growing JSON texts for the small schema: (name, text, smaller n, larger n, same outcome expected)
TEXTS = [
    ('arrays', lambda n: b'{"?":' + b'[' * n + b']' * n + b',"i":1}', 20, 300000, 0),
    ('objects', lambda n: b'{"?":' + b'{"a":' * n + b'0' + b'}' * n + b'}', 20, 200000, 0),
    ('mixed', lambda n: b'{"?":' + b'[{"a":' * n + b'0' + b'}]' * n + b'}', 20, 100000, 0),
    ('open arrays', lambda n: b'{"?":' + b'[' * n, 20, 1000000, 1),
    ('open objects', lambda n: b'{"?":' + b'{"a":' * n, 20, 300000, 1),
    ('open at the root', lambda n: b'[' * n, 20, 1000000, 1),
    ('open objects at the root', lambda n: b'{' * n, 20, 1000000, 1),
    ('array field', lambda n: b'{"a":' + b'[' * n + b']' * n + b'}', 20, 300000, 1),
    ('object field', lambda n: b'{"o":' * n + b'1' + b'}' * n, 20, 200000, 0),
    ('list field', lambda n: b'{"l":[' * n + b']}' * n, 20, 200000, 0),
    ('transient', lambda n: b'{"t":' + b'[' * n + b']' * n + b'}', 20, 300000, 0),
    ('wide arrays', lambda n: b'{"?":[' + b'[],' * n + b'[]]}', 20, 300000, 1),
    ('wide objects', lambda n: b'{"?":[' + b'{"":{}},' * n + b'{}]}', 20, 100000, 1),
    ('siblings', lambda n: b'{' + b','.join(b'"x%d":[{}]' % i for i in range(n)) + b'}', 20, 50000, 1),
    ('deep siblings', lambda n: b'{' + b','.join(b'"x%d":' % i + b'[' * 400 + b']' * 400 for i in range(n)) + b',"i":1}', 3, 800, 1),
    ('blank', lambda n: b'{' + b' \n\t\r' * n + b'}', 20, 300000, 1),
    ('only blank', lambda n: b' ' * n, 20, 1000000, 1),
    ('members', lambda n: b'{' + b','.join(b'"i":%d' % i for i in range(n)) + b'}', 20, 100000, 1),
    ('elements', lambda n: b'{"a":[' + b','.join(b'%d' % i for i in range(n)) + b']}', 20, 200000, 1),
    ('null elements', lambda n: b'{"a":[' + b','.join(b'null' for i in range(n)) + b']}', 20, 200000, 1),
    ('object elements', lambda n: b'{"l":[' + b','.join(b'{"x":%d}' % i for i in range(n)) + b']}', 20, 50000, 1),
    ('commas', lambda n: b'{"a":[' + b',' * n + b']}', 20, 500000, 1),
    ('colons', lambda n: b'{"i"' + b':' * n + b'1}', 20, 500000, 1),
    ('string', lambda n: b'{"s":"' + b'x' * n + b'"}', 20, 1000000, 1),
    ('open string', lambda n: b'{"s":"' + b'x' * n, 20, 1000000, 1),
    ('escapes', lambda n: b'{"s":"' + b'\\u00e9\\ud83d\\ude00\\n' * n + b'"}', 20, 100000, 1),
    ('backslashes', lambda n: b'{"s":"' + b'\\' * (2 * n) + b'"}', 20, 300000, 1),
    ('lone escapes', lambda n: b'{"s":"' + b'\\ud83d' * n + b'"}', 20, 100000, 1),
    ('name', lambda n: b'{"' + b'i' * n + b'":1}', 20, 1000000, 1),
    ('integer', lambda n: b'{"i":' + b'9' * n + b'}', 20, 1000000, 1),
    ('fraction', lambda n: b'{"i":1.' + b'0' * n + b'}', 20, 1000000, 1),
    ('small integer', lambda n: b'{"i":1' + b'0' * n + b'e-%d}' % n, 20, 300000, 1),
    ('exponent', lambda n: b'{"i":1e' + b'9' * n + b'}', 20, 1000000, 1),
    ('zero exponent', lambda n: b'{"i":0e' + b'9' * n + b'}', 20, 300000, 1),
    ('negative exponent', lambda n: b'{"i":1e-' + b'9' * n + b'}', 20, 1000000, 1),
    ('unknown number', lambda n: b'{"?":' + b'9' * n + b'}', 20, 1000000, 1),
    ('bad number', lambda n: b'{"?":' + b'-' * n + b'}', 20, 1000000, 1),
    ('double', lambda n: b'{"f":0.' + b'3' * n + b'}', 12, 500000, 1),
    ('big double', lambda n: b'{"f":' + b'3' * n + b'e-%d}' % n, 12, 100000, 1),
    ('literal', lambda n: b'{"b":' + b't' * n + b'}', 20, 1000000, 1),
    ('base64', lambda n: b'{"y":"' + b'AAEC' * n + b'"}', 20, 300000, 1),
    ('padding', lambda n: b'{"y":"' + b'====' * n + b'"}', 20, 300000, 1),
    ('zero bytes', lambda n: b'\0' * n, 20, 1000000, 1),
    ('high bytes', lambda n: b'{"s":"' + b'\xff' * n + b'"}', 20, 300000, 1),
    ('tail', lambda n: b'{}' + b']' * n, 20, 1000000, 1),
]


def limits(cpu, mem):
    def f():
        resource.setrlimit(resource.RLIMIT_CPU, (cpu, cpu + 5))
        if mem:
            resource.setrlimit(resource.RLIMIT_AS, (mem, mem))
    return f


def compile_big(run, binary, d, name, text, cpu=100):
    f = os.path.join(d, name.replace(' ', '_').replace(',', '') + '-%d.proto' % len(text))
    with open(f, 'wb') as o:
        o.write(text)
    t = time.time()
    try:
        r = subprocess.run([binary, f], stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, timeout=700 if env.THOROUGH else 250, preexec_fn=limits(cpu, 6 << 30))
        end, err = r.returncode, r.stderr
    except subprocess.TimeoutExpired:
        end, err = 'timeout', b''
    os.remove(f)
    return end, err, time.time() - t


def check_schemas(run, rng):
    binary = run.protogen()
    d = os.path.dirname(run.path('big', 'x'))
    scale = [(n, f, s, b) for n, f, s, b in SCHEMAS]
    # what the specification says at the small size
    small = [proto.case(f(s), ['pos', 'neg'], n, cli=True) for n, f, s, b in scale]
    good = proto.run_and_judge(run, small)
    want = {c['note']: c['lib']['st'] == 0 for c in good}

    def one(x):
        n, f, s, b = x
        out = []
        for size in ([b // 2, b] if env.THOROUGH else [b]) + ([b * 4] if env.THOROUGH and n not in ('64 fields', 'clique', 'fields', 'dense', 'diamond') else []):
            t = f(size)
            out.append((n, t, size) + compile_big(run, binary, d, n, t, 600 if env.THOROUGH else 100))
        return out
    worst = 0.0
    for res in env.pmap(one, scale):
        for n, t, size, end, err, secs in res:
            worst = max(worst, secs)
            if os.environ.get('VERIF_VERBOSE'): print(n, size, len(t), end, round(secs, 2), err[-60:])
            key = 'big:%s:%d' % (n, size)
            rep = 'family %s of tools/vt/checks/c13.py, size %d, %d bytes; begins %r' % (n, size, len(t), t[:200])
            if end == 'timeout' or (isinstance(end, int) and end < 0):
                run.violation(key, 'the compiler %s on %s' % (codec.crash_text(end), rep), rep)
            elif end not in (0, 1):
                run.violation(key, 'the compiler ends with status %s on %s' % (end, rep), rep)
            elif end == 1 and not proto.DIAG.match(err):
                run.violation(key, 'no diagnostic (%r) for %s' % (err[:200], rep), rep)
            elif n in want and (end == 0) != want[n] and n not in ('64 fields',):
                run.violation(key, 'other outcome (%s) than for the small schema of the family: %s' % (end, rep), rep)
            run.cov['large_schemas'] = run.cov.get('large_schemas', 0) + 1
    run.progress('large schemas, the slowest %.1fs' % worst)
    run.notes.append('slowest large schema %.1f s' % worst)


def any_bytes(rng, n):
    for i in range(n):
        x = rng.random()
        if x < 0.3:
            yield bytes(rng.randrange(256) for _ in range(rng.choice([0, 1, 2, 5, 30, 200])))
        elif x < 0.6:
            yield b''.join(rng.choice(proto.GRAMMAR + [bytes([rng.randrange(256)])]) for _ in range(rng.choice([3, 10, 40])))
        else:
            t, s = next(proto.valid_texts(rng, 1))
            for _ in range(rng.choice([1, 2, 5])):
                t = proto.damage_bytes(rng, t)
            yield t


def check(run):
    rng = random.Random(env.SEED)
    # the design: the machines make one step per byte
    o = proto.explore(run, 'totality', proto.GRAMMAR, maxlen=100, msgs=0, fields=1, cfg='ProtoTotal')
    exe = proto.build(run, san=True)
    k = 3 if not env.THOROUGH else 1
    pick = [x for i, x in enumerate(o) if i % k == 0]
    tool = run.sanitised()[0]
    os.environ.update(ASAN)
    cs = [proto.case(t, [], 'explored') for t, _ in pick]
    for t, _ in pick:
        if rng.random() < (1.0 if env.THOROUGH else 0.4):
            cs.append(proto.case(t + bytes([rng.randrange(256)]), [], 'explored, any byte'))
    cs += [proto.case(t, [], 'any bytes') for t in any_bytes(rng, 100000 if env.THOROUGH else 6000)]
    cs += [proto.case(t, [], 'rule') for t in proto.semantic(rng)]
    good = proto.run_lib(run, exe, cs, chunk=2000)
    for c in good:
        if c['lib']['st'] != 0 and c['lib']['diag'] != 1:
            run.violation(proto.key_of(c), 'rejected without a diagnostic: ' + proto.describe(c), proto.replay(c))
    run.cov['traces_validated_against_impl'] += len(good)
    for c in rng.sample(cs, 600):
        c['cli'] = True
    for c in cs:
        if c['cli']:
            c.pop('crash', None)
    proto.run_cli(run, tool, [c for c in cs if c['cli']])
    for c in cs:
        if 'cliout' in c and (c['cliout']['exit'] not in (0, 1) or (c['cliout']['exit'] == 1 and not c['cliout']['diag'])):
            run.violation(proto.key_of(c), 'status %d without a diagnostic: %s' % (c['cliout']['exit'], proto.describe(c)), proto.replay(c))
    run.progress('%d schemas with memory errors detected' % len(good))
    run.sample({'schema': rng.choice(cs)['text'].decode('latin-1')[:300]})
    check_schemas(run, rng)
    check_json(run, rng)


def check_json(run, rng):
    ss = [schema.small({}, 't'), schema.universal({}, 'u')]
    progs = codec.build_programs(run, ss, env.SAN)
    t = next((p for p in progs if p.schema.name == 't'), None)
    u = next((p for p in progs if p.schema.name == 'u'), None)
    if t is None or u is None:
        return
    root = {'k': 'msg', 'r': 0, 'm': 2}
    b = decmc.explore(run, t.schema, root, 2, 3, 60, cfg='DecoderTotal')
    cs = [codec.D(t, root, x[0] + ([rng.randrange(256)] if rng.random() < 0.5 else []), [], (0, 2, 4), None, 'explored') for i, x in enumerate(b) if env.THOROUGH or i % 3 == 0]
    for p in (t, u):
        n = 20000 if env.THOROUGH else 1500
        for r, v, x in cases.damaged_docs(rng, p, n):
            cs.append(codec.D(p, r, x, [], codec.ALL_READ, None, 'damaged'))
        for _ in range(n):
            r = rng.choice(p.roots())
            x = bytes(rng.randrange(256) for _ in range(rng.choice([0, 1, 2, 3, 10, 100]))) if rng.random() < 0.3 else b''.join(rng.choice(decmc.CHUNKS) for _ in range(rng.choice([2, 5, 20, 60])))
            cs.append(codec.D(p, r, x, [], codec.ALL_READ, None, 'any bytes'))
    good = codec.execute(run, cs, envv=ASAN, chunk=2500, timeout=120)
    run.cov['traces_validated_against_impl'] += len(good)
    run.progress('%d texts with memory errors detected' % len(good))
    small, big = [], []
    for n, f, s, l, same in TEXTS:
        small.append(codec.D(t, root, f(s), ['pos', 'neg', 'val', 'err'], (0, 4), None, n))
        c = codec.D(t, root, f(l), [], (0, 4), None, n)
        c['same'] = same
        big.append(c)
    codec.run_and_judge(run, small)
    want = {c['note']: c['res'][0]['ok'] for c in small if 'res' in c}
    good = codec.execute(run, big, envv=ASAN, chunk=1, timeout=120)
    for c in good:
        ok = {r['ok'] for r in c['res']}
        if c['same'] and c['note'] in want and ok != {want[c['note']]}:
            run.violation('bigtext:' + c['note'], 'other outcome than for the small text of the family %s' % c['note'], codec.replay(c)[:3000])
    run.cov['large_texts'] = len(good)
    run.cov['traces_validated_against_impl'] += len(good)
    run.progress('%d large texts' % len(good))
