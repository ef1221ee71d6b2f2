"""Executes operations on generated headers (harness/driver.hh) and has TLC judge them (spec/CodecTrace.tla)."""
import hashlib, json, os, re, signal, subprocess, time
from . import env, gen
from .env import CheckError, sh, pmap

ALL_READ = [0, 1, 2, 3, 4, 5, 6, 7, 8, 9]
ALL_WRITE = [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11]
ARR_READ = [0, 1, 2, 5, 7, 8]
ARR_WRITE = [0, 1, 3, 7, 8]


def mask(chs):
    return sum(1 << c for c in chs)


class Program:
    """A schema with its generated header and driver."""

    def __init__(self, run, schema, flags=()):
        self.run, self.schema, self.flags = run, schema, list(flags)
        self.tla = schema.tla()
        self.arr = schema.arrays()
        self.error = None
        self.exe = None

    def roots(self):
        return [{'k': 'msg', 'r': 0, 'm': i + 1} for i in range(len(self.schema.msgs))]

    def array_root(self, a):
        k, m = self.arr[a][1]
        return {'k': k, 'r': 1, 'm': m, 'a': a}

    def build(self):
        d = self.run.path('prog-' + self.schema.name, 'x')
        d = os.path.dirname(d)
        proto, hdr, cc, exe = (os.path.join(d, n) for n in ('schema.proto', 'schema.hh', 'driver.cc', 'driver'))
        with open(proto, 'w', encoding='utf-8') as f:
            f.write(self.schema.proto())
        r = sh([self.run.protogen(), proto, hdr], timeout=60)
        if r.returncode != 0 or not os.path.exists(hdr):
            self.error = 'protogen rejects the schema: ' + r.stderr.strip()[:300]
            return self
        text = open(hdr, encoding='utf-8', errors='replace').read()
        m = re.search(r'namespace (protogen_\w+)', text)
        if not m:
            self.error = 'no runtime namespace in the header'
            return self
        needs = self.schema.needs()
        with open(cc, 'w') as f:
            f.write('#include "schema.hh"\n#define PGNS %s\n' % m.group(1))
            for k, v in needs.items():
                if v:
                    f.write('#define %s\n' % k)
            f.write('#include "driver.hh"\n')
            f.write(self.schema.binding())
            f.write('int main( int argc, char **argv ) { return drv::run(argc, argv); }\n')
        cmd = ['g++', '-std=c++11', '-O0', '-w', '-I' + env.HARNESS, '-I' + d, '-pthread'] + self.flags + [cc, '-o', exe]
        for attempt in (1, 2):
            r = sh(cmd, timeout=600)
            if r.returncode == 0:
                break
        if r.returncode != 0:
            # is it the header itself?
            alone = os.path.join(d, 'alone.cc')
            with open(alone, 'w') as f:
                f.write('#include "schema.hh"\nint main() { return 0; }\n')
            q = sh(['g++', '-std=c++11', '-w', '-fsyntax-only', '-I' + d, alone], timeout=300)
            self.error = ('the generated header does not compile: ' if q.returncode else 'the classes of the header cannot be used: ') + \
                         '\n'.join(x for x in r.stderr.split('\n') if 'error' in x)[:600]
            return self
        self.exe = exe
        return self


def build_programs(run, schemas, flags=(), jobs=env.JOBS):
    run.protogen()
    progs = pmap(lambda s: Program(run, s, flags).build(), schemas, jobs)
    for p in progs:
        if p.error:
            run.violation('build:' + p.schema.name + ':' + hashlib.sha1(p.schema.proto().encode()).hexdigest()[:8], p.error, p.schema.proto())
    return [p for p in progs if not p.error]


# ------------------------------------------------------------------ cases

def D(p, root, text, fac, chans=(0,), init=None, note=''):
    return {'p': p, 'op': 'D', 'root': root, 'fac': list(fac), 'in': list(text), 'fresh': 1 if init is None else 0, 'init': init if init is not None else [],
            'mask': mask(chans), 'note': note}


def S(p, root, val, ea, sn, fac, chans=(0,), note=''):
    return {'p': p, 'op': 'S', 'root': root, 'fac': list(fac), 'val': val, 'ea': ea, 'sn': sn, 'mask': mask(chans), 'note': note}


def R(p, root, val, ea, sn, note=''):
    return {'p': p, 'op': 'R', 'root': root, 'fac': [], 'val': val, 'ea': ea, 'sn': sn, 'note': note}


def O(p, root, script, note=''):
    return {'p': p, 'op': 'O', 'root': root, 'fac': [], 'script': script, 'note': note}


def F(p, root, text, mode, second, step=1, init=None, note=''):
    return {'p': p, 'op': 'F', 'root': root, 'fac': [], 'in': list(text), 'fresh': 1 if init is None else 0, 'init': init if init is not None else [],
            'mode': mode, 'second': list(second), 'step': step, 'note': note}


def G(p, root, val, ea, sn, mode, step=1, note=''):
    return {'p': p, 'op': 'G', 'root': root, 'fac': [], 'val': val, 'ea': ea, 'sn': sn, 'mode': mode, 'step': step, 'note': note}


def js(v):
    return json.dumps(v, separators=(',', ':'))


def command(c):
    root = c['root']
    arr = root['r'] == 1
    idx = root['a'] if arr else root['m'] - 1
    if c['op'] == 'D':
        return '%s%d [%d,%s,%s]' % ('A' if arr else 'D', idx, c['mask'], '0' if c['fresh'] else js(c['init']), js(c['in']))
    if c['op'] == 'S':
        if c.get('shared'):
            return 'P%d [%d,%d,%s]' % (idx, c['ea'], c['sn'], js(c['val']))
        return '%s%d [%d,%d,%d,%s]' % ('B' if arr else 'S', idx, c['mask'], c['ea'], c['sn'], js(c['val']))
    if c['op'] == 'R':
        return 'R%d [%d,%d,%s]' % (idx, c['ea'], c['sn'], js(c['val']))
    if c['op'] == 'O':
        return '%s%d %s' % ('Q' if c.get('last') else 'O', idx, js(c['script']))
    if c['op'] == 'F':
        return '%s%d [%d,%s,%s,%s,%d]' % ('f' if arr else 'F', idx, c['mode'], '0' if c['fresh'] else js(c['init']), js(c['in']), js(c['second']), c['step'])
    if c['op'] == 'G':
        return '%s%d [%d,%d,%d,%s,%d]' % ('g' if arr else 'G', idx, c['mode'], c['ea'], c['sn'], js(c['val']), c['step'])
    raise ValueError(c['op'])


def run_process(exe, lines, args=(), timeout=120, envv=None):
    """Returns (answers, how it ended)."""
    e = dict(os.environ)
    e.update(envv or {})
    pr = subprocess.Popen([exe] + list(args), stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=e)
    try:
        out, err = pr.communicate(('\n'.join(lines) + '\n').encode(), timeout=timeout)
        end = pr.returncode
    except subprocess.TimeoutExpired:
        pr.kill()
        out, err = pr.communicate()
        end = 'timeout'
    ans = out.decode('latin-1').split('\n')
    complete = ans[:-1]
    return complete, end, err.decode('latin-1')


def crash_text(end):
    if end == 'timeout':
        return 'does not return'
    if isinstance(end, int) and end < 0:
        try:
            return 'is killed by ' + signal.Signals(-end).name
        except ValueError:
            return 'is killed by signal %d' % -end
    return 'ends the process with status %s' % end


def execute(run, cases, args=(), timeout=60, envv=None, chunk=400):
    """Runs the cases (grouped by program); adds 'res'. A crash or hang is a violation of the case that caused it."""
    groups = {}
    for c in cases:
        groups.setdefault(id(c['p']), []).append(c)
    work = []
    for g in groups.values():
        for i in range(0, len(g), chunk):
            work.append(g[i:i + chunk])

    def one(part):
        exe = part[0]['p'].exe
        i = 0
        bad = 0
        while i < len(part):
            if run.hangs:
                break
            lines = [command(c) for c in part[i:]]
            ans, end, err = run_process(exe, lines, args, timeout, envv)
            for c, a in zip(part[i:], ans):
                try:
                    c['res'] = json.loads(a)
                except ValueError:
                    raise CheckError('driver output not understood: %r' % a[:300])
            i += len(ans)
            if i >= len(part):
                if end not in (0,) and not ans == []:
                    # it failed after the last answer
                    part[-1]['crash'] = crash_text(end) + ' at the end ' + err[-500:]
                break
            if end == 3:
                raise CheckError('driver refuses: ' + err[-500:])
            if end == 0:
                raise CheckError('driver stopped without a reason')
            # confirm on its own before it counts
            a2, e2, err2 = run_process(exe, [command(part[i])], args, timeout, envv)
            if len(a2) == 1 and e2 == 0:
                if end == 'timeout' or end == -9:
                    part[i]['res'] = json.loads(a2[0])
                else:
                    part[i]['crash'] = crash_text(end) + ' (after other operations) ' + err[-800:]
            else:
                part[i]['crash'] = crash_text(e2) + ' ' + err2[-800:]
                if e2 == 'timeout':
                    run.hang('crash:' + key_of(part[i]), 'the operation ' + part[i].pop('crash'), replay(part[i]))
                    return
            i += 1
            bad += 1
            if bad > 5:
                for c in part[i:]:
                    c['skipped'] = True
                break
        return None

    pmap(one, work)
    good = []
    for c in cases:
        if 'crash' in c:
            run.violation('crash:' + key_of(c), 'the operation ' + c['crash'], replay(c))
        elif 'res' in c:
            good.append(c)
    run.stop_if_hung()
    return good


def key_of(c):
    h = hashlib.sha1((c['p'].schema.proto() + command(c) + ','.join(c['fac'])).encode()).hexdigest()[:10]
    return '%s:%s:%s' % (c['op'], c['p'].schema.name, h)


def replay(c):
    r = ['schema:', c['p'].schema.proto(), 'driver command:', command(c), 'facets: ' + ','.join(c['fac']), 'note: ' + c.get('note', '')]
    if 'in' in c:
        r += ['text: %r' % bytes(c['in'])]
    if 'res' in c:
        r += ['observed: ' + js(c['res'])[:4000]]
    return '\n'.join(r)


def table_for(c):
    """Numbers whose conversion the specification may need."""
    S_ = c['p'].tla
    if not uses_float(S_, c['root'], set()):
        return []
    if c['op'] == 'D':
        return gen.float_table(c['in'])
    if c['op'] == 'F':
        # a text may end inside a number
        cut = [c['in'][:i] for i in range(len(c['in']))] if c['mode'] == 5 else []
        return gen.float_table(c['in'], c['second'], *cut)
    if c['op'] == 'G':
        return gen.float_table(*[r['ref'] for r in c['res'] if 'ref' in r])
    if c['op'] == 'S':
        return gen.float_table(*[r['out'] for r in c['res']])
    if c['op'] == 'O':
        return gen.float_table(*[e[4] for e in c['script'] if e[0] == 11])
    return []


def uses_float(S_, ty, seen):
    if ty['k'] in ('f32', 'f64'):
        return True
    if ty['k'] != 'msg' or ty['m'] in seen:
        return False
    seen.add(ty['m'])
    return any(uses_float(S_, f, seen) for f in S_[ty['m'] - 1]['f'])


HUGE = 2000000


def judge(run, cases, module='CodecTrace', what=None):
    """TLC decides whether every case is a behaviour of the specification."""
    cases = [c for c in cases if 'res' in c]
    if not cases:
        return
    # TLC holds all cases of a run in memory
    part, size, huge = [], 0, []
    for c in cases:
        n = size_of(c)
        if n > HUGE:
            huge.append(c)
            continue
        part.append(c)
        size += 400 + 4 * n
        if size > 32000000:
            judge_part(run, part, module, what)
            part, size = [], 0
    if part:
        judge_part(run, part, module, what)
    # observations out of all proportion, one at a time, unless the verdict is known
    for c in sorted(huge, key=size_of):
        if not run.violations:
            judge_part(run, [c], module, what)


def judge_part(run, cases, module, what):
    progs = []
    index = {}
    for c in cases:
        if id(c['p']) not in index:
            index[id(c['p'])] = len(progs) + 1
            progs.append(c['p'])
    # long cases first: the workers finish together
    order = sorted(cases, key=lambda c: -size_of(c))
    recs = []
    for c in order:
        r = {k: c[k] for k in ('op', 'root', 'fac', 'res') if k in c}
        for k in ('in', 'fresh', 'init', 'val', 'ea', 'sn', 'script', 'mode', 'second'):
            if k in c:
                r[k] = c[k]
        r['s'] = index[id(c['p'])]
        r['ft'] = table_for(c)
        recs.append(r)
    n = len(os.listdir(run.dir))
    sp = run.path('schemas-%d.json' % n)
    cp = run.path('cases-%d.ndjson' % n)
    env.write_json(sp, [p.tla for p in progs])
    env.write_ndjson(cp, recs)
    t = time.time()
    res = run.tlc(module, env={'SCHEMAS': sp, 'CASES': cp})
    if res.distinct != 2 * len(recs):
        raise CheckError('%s: %d states for %d cases: %s' % (module, res.distinct, len(recs), res.out[-1500:]))
    run.cov['states'] += res.distinct
    run.cov['transitions'] += res.generated - len(recs)
    run.cov['traces_validated_against_impl'] += len(recs)
    run.cov['observations'] = run.cov.get('observations', 0) + sum(len(h['h']) if 'h' in h else 1 for c in recs for h in c['res'])
    for line in res.printed('BAD '):
        i, rest = line.split(' ', 1)
        c = order[int(i) - 1]
        run.violation(key_of(c), '%s %s: %s' % (c['op'], rest, describe(c)), replay(c) + '\nspecification: ' + rest)
    run.progress('%s: %d cases, %.1fs' % (what or module, len(recs), time.time() - t))
    os.remove(cp)


def size_of(c):
    """Roughly the number of bytes the specification has to look at."""
    n = len(c.get('in', ()))
    if c['op'] == 'D':
        # a decoded value is as large as its text, or some members larger
        n += max(0, sum(count(r['out']) for r in c['res']) // 8 - n)
    if c['op'] == 'S':
        n += sum(len(r['out']) for r in c['res'])
    if c['op'] in ('F', 'G'):
        return n + sum(count(r.get('out', [])) + len(r.get('ref', ())) for r in c['res']) * (3 if c['op'] == 'F' else 1)
    if c['op'] != 'D':
        n += count(c.get('val', 0)) + count(c.get('script', 0)) // 4
    if c['op'] == 'R':
        n += sum(len(r['text']) for r in c['res'])
    if c['op'] == 'O':
        n += sum(count(r['v']) for r in c['res'])
    return n


def count(v):
    return 1 + sum(count(x) for x in v) if isinstance(v, list) else 1


def describe(c):
    s = c['p'].schema.name
    if 'in' in c:
        return '%s root=%s text=%r observed=%s' % (s, c['root'], bytes(c['in'])[:200], js(c['res'])[:300])
    return '%s root=%s observed=%s' % (s, c['root'], js(c['res'])[:300])


def run_and_judge(run, cases, **kw):
    good = execute(run, cases, **kw)
    judge(run, good)
    return good


def show(c):
    if 'in' in c:
        return {'op': c['op'], 'schema': c['p'].schema.name, 'root': c['root'], 'text': bytes(c['in']).decode('latin-1')[:400], 'into': 'fresh' if c['fresh'] else str(c['init'])[:200], 'why': c.get('note', '')}
    return {'op': c['op'], 'schema': c['p'].schema.name, 'command': command(c)[:500], 'why': c.get('note', '')}
