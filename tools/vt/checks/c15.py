"""C15: schema options change exactly what they document."""
import hashlib, os, random, re
from .. import env, gen, schema, binding, cxx, codec, cases
from ..binding import fld, opt, pkg, msg

PAR = [(0, 0), (1, 0), (0, 1), (1, 1)]
FAC_D = ['pos', 'neg', 'val', 'err', 'par']
FAC_S = ['acc', 'val', 'err', 'par']

LIT = re.compile(r'//[^\n]*|/\*.*?\*/|(?:u8|u|U|L)?R"([^()\\ ]{0,16})\((.*?)\)\1"|"((?:[^"\\\n]|\\.)*)"|\'(?:[^\'\\\n]|\\.)+\'', re.S)


def unescape(t):
    """Bytes of the text of a C++ string literal."""
    o = bytearray()
    b = t.encode('utf-8', 'surrogateescape')
    i = 0
    while i < len(b):
        if b[i] != 0x5C:
            o.append(b[i]); i += 1
            continue
        m = re.compile(rb'\\(x[0-9a-fA-F]+|[0-7]{1,3}|u[0-9a-fA-F]{4}|U[0-9a-fA-F]{8}|\r?\n|.)', re.S).match(b, i)
        e = m.group(1)
        if e[:1] == b'x':
            o.append(int(e[1:], 16) & 255)
        elif e[:1] in b'01234567':
            o.append(int(e, 8) & 255)
        elif e[:1] in b'uU' and len(e) > 1:
            o += chr(int(e[1:], 16)).encode('utf-8', 'surrogatepass')
        else:
            o += {b'n': b'\n', b't': b'\t', b'r': b'\r', b'0': b'\0', b'a': b'\a', b'b': b'\b', b'f': b'\f', b'v': b'\v'}.get(e, b'' if e.endswith(b'\n') else e)
        i = m.end()
    return bytes(o)


def literals(text):
    """The string literals of a C++ text; adjacent ones joined."""
    out, last = [], None
    for m in LIT.finditer(text):
        if m.group(3) is None and m.group(2) is None:
            continue
        v = unescape(m.group(3)) if m.group(3) is not None else m.group(2).encode('utf-8', 'surrogateescape')
        if last is not None and text[last:m.start()].strip() == '':
            out[-1] += v
        else:
            out.append(v)
        last = m.end()
    return out


def combo(k):
    return [opt(o, v - 1) for o, v in zip(binding.OPTS, (k % 3, k // 3 % 3, k // 9)) if v]


def field_forms():
    """Every combination of the field options with every kind of field; the names have nothing in common with each other."""
    fs, n = [], 1
    for t, rep in (('int32', 0), ('string', 0), ('bytes', 0), ('double', 1), ('string', 1), ('message', 0), ('message', 1)):
        for js in (None, 'zq%d-%s:w\u00e9' % (n, t), ):
            for tr in (0, 1, 2):
                fs.append(fld('%s%d_%d%d' % (t, rep, js is not None, tr), t, n * 3 % 97 + 1, rep, js and js + str(tr), tr, 1 if t == 'message' else 0))
                n += 1
    return fs


def long_names():
    """JSON names of every length and of every permitted character."""
    out = []
    for n in list(range(0, 34)) + [63, 64, 65, 127, 128, 129, 255, 256, 257, 300]:
        out.append(''.join(chr(33 + (n * 5 + i * 7) % 90) for i in range(n)).replace('"', 'a').replace("'", 'b').replace('\\', 'c'))
    chars = [chr(c) for c in range(0x20, 0x80) if chr(c) not in '"\'\\']
    out += ['#'.join(chars[i:i + 19]) for i in range(0, len(chars), 19)]
    # what means something in C++ literals, in formats and in templates
    out += [''.join(c + c for c in chars if not c.isalnum()), '??=??/??)??(??!??<??>??-', 'x??/', '$$', '$1$', '$1$$2$$3$', '$', 'a$9$b$', '%s%d%n%', '/*', '*/', '//', '{}', 'R(x)R', '\x7f\x7f', 'u8', ' ', '  a  ']
    out += ['c' + c + 'c' for c in ('$', '%', '?', '\x7f', '\u00e9', '\u20ac', '\U0001f600', '\u07ff', '\u0800', '\ufffd')]
    return list(dict.fromkeys(out))


def random_decls(rng):
    n = 0
    ds = []
    wanted = [opt(o, rng.choice([0, 1, 1])) for o in binding.OPTS if rng.random() < 0.6]
    for i in range(rng.randint(1, 4)):
        if rng.random() < 0.4:
            ds.append(pkg(*rng.choice([['p'], ['p', 'q'], ['x']])))
        n += 1
        fs = []
        taken = set()
        for j in range(rng.choice([1, 2, 4, 9])):
            t = rng.choice(schema.TYPES + (['message'] * 5 if n > 1 else []))
            js = rng.choice([None, None, rng.choice(schema.JSON_NAMES), 'k%d' % j])
            if (js if js is not None else 'f%d' % j) in taken:
                js = None
            taken.add(js if js is not None else 'f%d' % j)
            fs.append(fld('f%d' % j, t, rng.choice([j + 1, 100 + j, 536870900 + j]), rng.choice([0, 0, 1]), js, rng.choice([0, 0, 1, 2]), rng.randint(1, n - 1) if t == 'message' else 0))
        ds.append(msg('M%d' % n, *fs))
    for o in wanted:
        ds.insert(rng.randint(0, len(ds)), o)
    return ds


def name_parts():
    ns = long_names()
    return [msg('N%d' % i, *[fld('q%d_%d' % (i, j), ('int32', 'string')[j % 2], j + 1, 0, n) for j, n in enumerate(ns[i:i + 30])]) for i in range(0, len(ns), 30)]


def hidden_ok(run, b, header, plain):
    """No JSON name in the literals of an obfuscated header. plain: literals of a header without names."""
    lits = literals(header)
    base = set(plain)
    whole = set(lits)
    inside = b'\x00'.join(x for x in lits if x not in base)
    every = b'\x00'.join(lits)
    bad = []
    for h in b.hidden:
        if not h:
            continue
        if h in whole and h not in base:
            bad.append(h)
        elif len(h) >= 5 and h in inside or len(h) >= 5 and h in every and not any(h in x for x in base):
            bad.append(h)
    return bad


def check(run):
    rng = random.Random(env.SEED)
    run.protogen()
    leaf = msg('Leaf', fld('inner_name', 'int32', 1), fld('other', 'string', 2, 0, 'renamed-inner'), fld('ghost', 'bool', 3, 0, None, 2))
    forms = msg('Forms', *field_forms())
    # the machine reaches every combination of the options; here with every form of field
    decls = [leaf, forms] + [opt(o, v) for o in binding.OPTS for v in (0, 1)]
    explored = [b for b in binding.explore(run, decls, 2, 0, 'x') if len(b.meaning) == 2]
    if len(explored) != 27:
        raise env.CheckError('%d combinations of options' % len(explored))
    names = name_parts()
    given = [[opt('obfuscate_strings', 1)] + names, names, [opt('obfuscate_strings', 1), opt('number_names', 1)] + names, names + [opt('cpp_use_lists', 1), opt('obfuscate_strings', 1)]]
    given += [random_decls(rng) for _ in range(200 if env.THOROUGH else 14)]
    every = msg('Every', *[fld('e%d' % i, t, i + 1, i // len(schema.TYPES)) for i, t in enumerate(list(schema.TYPES) * 2)])
    given += [[every], [opt('cpp_use_lists', 1), every], [opt('cpp_use_lists', 0), opt('number_names', 1), opt('obfuscate_strings', 1), every]]
    bs = explored + binding.meanings(run, given, 'g')
    progs = codec.build_programs(run, bs)
    run.progress('%d programs built' % len(progs))
    # containers and element types
    d = os.path.dirname(run.path('types', 'x'))

    def types(p):
        h = os.path.join(run.dir, 'prog-' + p.schema.name, 'schema.hh')
        t = open(h, encoding='utf-8', errors='surrogateescape').read()
        ns = re.search(r'namespace (protogen_\w+)', t).group(1)
        c = cxx.write(os.path.join(d, p.schema.name + '.cc'), '#include "%s"\n' % h + binding.asserts(p.schema, ns))
        return cxx.compile_(cxx.GXX + ['-fsyntax-only', c]), t
    for p, (e, t) in zip(progs, env.pmap(types, progs)):
        p.header = t
        if e:
            run.violation('types:' + hashlib.sha1(p.schema.proto().encode()).hexdigest()[:10], '%s\n%s' % (e, p.schema.proto()[:500]), p.schema.proto() + '\n' + e)
    # obfuscation
    f = cxx.write(os.path.join(d, 'plain.proto'), 'syntax = "proto3";\nmessage Z { int32 zz9 = 1 [name="zz9"]; repeated string zz8 = 2; bytes zz7 = 3; repeated double zz6 = 4; repeated bytes zz5 = 5; }\n')
    h = os.path.join(d, 'plain.hh')
    plain = []
    if cxx.generate(run, f, h)[0] == 0:
        plain = [x for x in literals(open(h, encoding='utf-8', errors='surrogateescape').read()) if b'zz' not in x]
    count = 0
    for p in progs:
        if p.schema.hidden:
            bad = hidden_ok(run, p.schema, p.header, plain)
            count += len(p.schema.hidden)
            if bad:
                run.violation('visible:' + hashlib.sha1(p.schema.proto().encode()).hexdigest()[:10], 'obfuscated names are visible in the header: %r\n%s' % (bad[:5], p.schema.proto()[:400]), p.schema.proto())
    run.cov['hidden_names'] = count
    # the JSON side
    cs = []
    for p in progs:
        ex = p.schema.name.startswith('x')
        for root in p.roots():
            fs = p.tla[root['m'] - 1]['f']
            dflt = gen.default(p.tla, root['m'])
            decl = p.schema.msgs[root['m'] - 1].fields
            st = gen.Style(rng, ws=0, esc=0, num=0)
            full = gen.msg_value(rng, p.tla, root['m'], 1.0, 1)
            for ea, sn in PAR[:2] if not ex else PAR:
                cs.append(codec.S(p, root, full, ea, sn, FAC_S, (0,), 'all fields'))
            cs.append(codec.R(p, root, full, 0, 0, 'all fields'))
            allm = []
            for i, f in enumerate(fs):
                v = gen.field_value(rng, p.tla, f, 0.8, 1)
                one = [x for x in dflt]
                one[i] = v
                if p.schema.name < 'g4' or rng.random() < 0.3:
                    cs.append(codec.S(p, root, one, rng.randint(0, 1), 0, FAC_S, (0,), 'one field'))
                # by the JSON name, by the name of the field, by the number, by the name option
                val = gen.field_text(rng, p.tla, st, f, v)
                alts = {bytes(f['n']), decl[i].name.encode(), str(decl[i].num).encode(), (decl[i].json or '').encode()}
                for a in sorted(alts):
                    cs.append(codec.D(p, root, b'{' + gen.member(rng, st, list(a), val) + b'}', FAC_D, (0,), None, 'by name %r' % a))
                allm.append(gen.member(rng, st, f['n'], val))
            cs.append(codec.D(p, root, b'{' + b','.join(allm) + b'}', FAC_D, (0,), full, 'all members'))
        for root, v in cases.random_values(rng, p, 60 if env.THOROUGH else 6):
            ea, sn = rng.choice(PAR)
            cs.append(codec.S(p, root, v, ea, sn, FAC_S, (0,), 'random'))
        for root, v, t in cases.random_docs(rng, p, 60 if env.THOROUGH else 6):
            cs.append(codec.D(p, root, t, FAC_D, (0,), None, 'random'))
    for c in rng.sample(cs, min(3, len(cs))):
        run.sample(codec.show(c))
    codec.run_and_judge(run, cs)
