"""C17: schema types map to the documented C++ types."""
import hashlib, os, random, re
from .. import env, schema, binding, cxx
from ..binding import fld, opt, pkg, msg

PK = [['p'], ['p', 'q'], ['q'], ['q', 'p', 'r'], ['long_name9', 'X'], ['a1', 'b', 'c', 'd', 'e']]


def all_types(m):
    """Every type, singular, marked, repeated and transient; m: index of an earlier message or 0."""
    fs, n = [], 1
    for t in schema.TYPES + (['message'] if m else []):
        for rep, mark, tr in ((0, 0, 0), (1, 0, 0), (0, 1, 0), (0, 0, 2), (1, 0, 2), (0, 0, 1)):
            fs.append(fld('%s_%d%d%d' % (t, rep, mark, tr), t, n, rep, None, tr, m if t == 'message' else 0, mark))
            n += 1
    return fs


def split(fs, size=60):
    return [fs[i:i + size] for i in range(0, len(fs), size)]


def random_decls(rng):
    ds, n = [], 0
    for i in range(rng.randint(2, 9)):
        r = rng.random()
        if r < 0.3:
            ds.append(pkg(*rng.choice(PK)))
        elif r < 0.45:
            o = rng.choice(binding.OPTS)
            if not any(d['d'] == 'opt' and d['o'] == o for d in ds):
                ds.append(opt(o, rng.randint(0, 1)))
        else:
            n += 1
            fs = []
            for j in range(rng.choice([0, 1, 2, 4, 9])):
                t = rng.choice(schema.TYPES + (['message'] * 6 if n > 1 else []))
                fs.append(fld('f%d' % j, t, rng.choice([j + 1, 100 + j, 536870900 + j]), rng.choice([0, 0, 1]), rng.choice([None, None, 'j%d' % j]), rng.choice([0, 0, 1, 2]), rng.randint(1, n - 1) if t == 'message' else 0, rng.choice([0, 0, 1])))
            ds.append(msg('%s%d' % (rng.choice(['M', 'Name', 'x_', 'Int32_']), n), *fs))
    return ds if n else random_decls(rng)


def verify(run, bs):
    d = os.path.dirname(run.path('bind', 'x'))

    def one(b):
        f = cxx.write(os.path.join(d, b.name + '.proto'), b.proto())
        h = os.path.join(d, b.name + '.hh')
        end, err = cxx.generate(run, f, h)
        if end != 0:
            return 'the schema is rejected: ' + err.strip()[-300:]
        m = re.search(r'namespace (protogen_\w+)', open(h, encoding='utf-8', errors='replace').read())
        if not m:
            return 'no runtime namespace in the header'
        c = cxx.write(os.path.join(d, b.name + '.cc'), '#include "%s.hh"\n' % b.name + binding.asserts(b, m.group(1)))
        return cxx.compile_((cxx.CLANGXX if b.clang else cxx.GXX) + ['-fsyntax-only', c])
    for i, b in enumerate(bs):
        b.clang = i % 3 == 1
    for b, e in zip(bs, env.pmap(one, bs)):
        if e:
            run.violation('bind:' + hashlib.sha1(b.proto().encode()).hexdigest()[:10], '%s\n%s' % (e, b.proto()[:500]), b.proto() + '\n' + e)
    run.cov['traces_validated_against_impl'] += len(bs)
    run.cov['members_checked'] = run.cov.get('members_checked', 0) + sum(len(m['f']) for b in bs for m in b.meaning)
    run.progress('%d headers verified' % len(bs))


def check(run):
    rng = random.Random(env.SEED)
    run.protogen()
    # every order of packages and messages
    ds = [pkg(*PK[0]), pkg(*PK[1]), pkg(*PK[2]), msg('A', fld('x', 'int32', 1)), msg('B', fld('a', 'message', 1, 0, None, 0, 1), fld('b', 'message', 2, 1, None, 0, 1)), msg('C', fld('c', 'bytes', 3, 1), fld('s', 'string', 2, 1)),
          opt('cpp_use_lists', 1)]
    paths = binding.explore(run, ds, 3 if env.THOROUGH else 2, 2, 'scope', 1)
    paths = [b for b in paths if b.meaning]
    if not env.THOROUGH:
        paths = [b for b in paths if len(b.meaning) == 2]
        paths = rng.sample(paths, min(150, len(paths)))
    else:
        paths = rng.sample(paths, min(3000, len(paths)))
    # every type in every form under every combination of the file options
    given = []
    for combo in range(27):
        os_ = [opt(o, v - 1) for o, v in zip(binding.OPTS, (combo % 3, combo // 3 % 3, combo // 9)) if v]
        p = PK[combo % len(PK)]
        given.append(os_[:1] + [pkg(*p)] * (combo % 4 != 0) + [msg('Base', fld('x', 'int32', 1))] + os_[1:] + [msg('All%d' % i, *part) for i, part in enumerate(split(all_types(1)))])
    given += [random_decls(rng) for _ in range(1500 if env.THOROUGH else 60)]
    bs = binding.meanings(run, given, 'given')
    run.sample({'schema': bs[20].proto()[:600], 'specified': [(f['cpp'], m['cls']) for m in bs[20].meaning for f in m['f']][:4]})
    run.sample({'schema': bs[-1].proto()[:600], 'specified': [m['cls'] for m in bs[-1].meaning]})
    run.sample({'schema': paths[-1].proto()[:600], 'specified': [m['cls'] for m in paths[-1].meaning]})
    verify(run, bs + paths)
