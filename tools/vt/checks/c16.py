"""C16: the command line tool's exit status and output tell the truth."""
import hashlib, json, os, random, re, resource, shutil, signal, subprocess, tempfile, threading
from .. import env, schema, proto, cxx

VALID = '''syntax = "proto3";
package cli.p;
message A { int32 x = 1; repeated string s = 2; }
message B { A a = 1; repeated A l = 2; bytes b = 3; }
'''
REJECTED = [
    'syntax = "proto2";\nmessage A { int32 x = 1; }\n',
    'message A { int32 x = 1 }\n',
    'syntax = "proto3";\nmessage A { int32 x = 1;\n',
    'syntax = "proto3";\nmessage A { B x = 1; }\n',
    'syntax = "proto3";\nmessage A { int32 x = 1; int32 y = 1; }\n',
    'syntax = "proto3";\nmessage A { int32 x = 1; }\nmessage A { int32 x = 1; }\n',
    'syntax = "proto3";\nmessage A { A x = 1; }\n',
    'syntax = "proto3";\nmessage A { int32 x = 19001; }\n',
    'syntax = "proto3";\noption number_names = "yes";\nmessage A { int32 x = 1; }\n',
    'syntax = "proto3";\nmessage A { int32 x = 1 [transient = "yes"]; }\n',
    'syntax = "proto3";\nmessage A { int32 x = 1 [name = "y"]; int32 y = 2; }\n',
    'syntax = "proto3";\nmessage A { int32 x = 1; }\nmessage B { int32 x = 1 [name = "a\'b"]; }\n',
    'syntax = "proto3";\nmessage A {\n' + ''.join('int32 f%d = %d;\n' % (i, i) for i in range(1, 66)) + '}\n',
    'syntax = "proto3";\n/* not closed',
    'syntax = "proto3";\noption cpp_use_lists = 1;\nmessage A { int32 x = 1; }\n',
    'syntax = "proto3";\noption obfuscate_strings = 7;\nmessage A { int32 x = 1; }\n',
    VALID * 1 + '}\n',
    '\x00',
]
OLD = b'what was there before\n'


def large():
    o = ['syntax = "proto3";', 'package cli;']
    for i in range(220):
        o.append('message M%d {' % i)
        for j in range(6):
            o.append('  %s field_%d = %d;' % (['int32', 'repeated string', 'bytes', 'M%d' % (i - 1) if i else 'bool', 'double', 'repeated bool'][j], j, j + 1))
        o.append('}')
    return '\n'.join(o) + '\n'


class World:
    """A scratch directory with every kind of input and output."""

    def __init__(self, run, tool):
        self.top = tempfile.mkdtemp(prefix='pgcli')
        os.chmod(self.top, 0o755)
        self.tool = os.path.join(self.top, 'protogen')
        shutil.copy(tool, self.tool)
        os.chmod(self.tool, 0o755)
        self.in_ = os.path.join(self.top, 'in')
        os.mkdir(self.in_)
        w = lambda n, t: open(os.path.join(self.in_, n), 'w').write(t)
        w('valid.proto', VALID)
        w('large.proto', large())
        w('bare.proto', 'syntax = "proto3";\n')
        for i, t in enumerate(REJECTED):
            w('rejected%d.proto' % i, t)
        w('unreadable.proto', VALID)
        os.chmod(os.path.join(self.in_, 'unreadable.proto'), 0)
        os.mkdir(os.path.join(self.in_, 'dir.proto'))
        os.symlink('valid.proto', os.path.join(self.in_, 'link.proto'))
        os.symlink('loop.proto', os.path.join(self.in_, 'loop.proto'))
        self.n = 0
        self.lock = threading.Lock()
        self.refs = {}

    def scratch(self):
        with self.lock:
            self.n += 1
            d = os.path.join(self.top, 'w%d' % self.n)
        os.mkdir(d)
        os.chmod(d, 0o777)
        return d

    def input(self, kind, d, k):
        if kind == 'rejected':
            kind = 'rejected%d' % (k % len(REJECTED))
        if kind == 'noname':
            return ''
        if kind == 'fifo':
            p = os.path.join(d, 'fifo.proto')
            os.mkfifo(p)
            os.chmod(p, 0o666)
            return p
        return os.path.join(self.in_, kind + '.proto')

    def close(self):
        shutil.rmtree(self.top, ignore_errors=True)


def demote():
    os.setgroups([])
    os.setgid(65534)
    os.setuid(65534)


def can_demote():
    try:
        return subprocess.run(['true'], preexec_fn=demote).returncode == 0
    except Exception:
        return False


def can_inject(d):
    try:
        r = subprocess.run(['strace', '-o', os.path.join(d, 'probe'), '-e', 'trace=write', '-e', 'inject=write:error=EIO:when=1', 'sh', '-c', 'echo x'], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=20)
        return 'INJECTED' in open(os.path.join(d, 'probe')).read()
    except Exception:
        return False


class Outcome:
    pass


def invoke(w, args, std, user, limit=None, strace=None, cwd=None, feed=None):
    """Runs the tool; std: kind of standard output. Returns Outcome(status, message, std)."""
    d = w.scratch()
    keep = []
    path = os.path.join(d, 'stdout')
    out = None
    rd = None
    if std in ('file', 'limit'):
        out = open(path, 'wb')
    elif std == 'append':
        with open(path, 'wb') as f:
            f.write(OLD)
        out = open(path, 'ab')
    elif std == 'full':
        out = open('/dev/full', 'wb')
    elif std in ('pipe', 'broken'):
        rd, wr = os.pipe()
        out = os.fdopen(wr, 'wb')
        if std == 'broken':
            os.close(rd)
            rd = None

    def pre():
        signal.signal(signal.SIGPIPE, signal.SIG_IGN)
        signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
        if limit is not None:
            resource.setrlimit(resource.RLIMIT_FSIZE, (limit, limit))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        if std == 'closed':
            os.close(1)
        if user:
            demote()
    cmd = (strace or []) + [w.tool] + args
    err = open(os.path.join(d, 'stderr'), 'w+b') if limit is None else None
    pr = subprocess.Popen(cmd, stdin=subprocess.DEVNULL, stdout=out if out is not None else subprocess.DEVNULL, stderr=err if err is not None else subprocess.PIPE, preexec_fn=pre, restore_signals=False, cwd=cwd or d)
    if out is not None:
        out.close()
    got = b''
    threads = []
    if feed is not None:
        def feeder():
            fd = os.open(feed[0], os.O_RDWR)
            os.write(fd, feed[1])
            # the reader has opened the pipe when it has taken everything
            import time, fcntl, termios, struct
            for _ in range(2000):
                if struct.unpack('i', fcntl.ioctl(fd, termios.FIONREAD, b'\0\0\0\0'))[0] == 0 or pr.poll() is not None:
                    break
                time.sleep(0.005)
            os.close(fd)
        t = threading.Thread(target=feeder)
        t.start()
        threads.append(t)
    if rd is not None:
        with os.fdopen(rd, 'rb') as f:
            got = f.read()
    o = Outcome()
    try:
        e = pr.communicate(timeout=60)[1]
        o.status = pr.returncode
    except subprocess.TimeoutExpired:
        pr.kill()
        pr.communicate()
        o.status, e = 'timeout', b''
    for t in threads:
        t.join()
    if err is not None:
        err.seek(0)
        e = err.read()
        err.close()
    o.stderr = e
    if std in ('file', 'limit', 'append') and os.path.exists(path):
        got = open(path, 'rb').read()
    if std == 'append':
        if got[:len(OLD)] != OLD:
            got = b'(overwritten)' + got
        else:
            got = got[len(OLD):]
    o.std = got
    o.dir = d
    return o


def reference(w, path):
    with w.lock:
        if path in w.refs:
            return w.refs[path]
    o = invoke(w, [path], 'file', False)
    with w.lock:
        w.refs[path] = o.std
    return o.std


SYNTACTIC = ['message B { int32 y = }', '}', 'message B { int32 }', 'message 7 { }', 'message B { int32 y 1; }', '=']
SEMANTIC = ['message B { Nope y = 1; }', 'message B { int32 y = 1; int32 y = 2; }', 'message B { int32 y = 1; int32 z = 1; }', 'message B { B y = 1; }', 'message B { int32 y = 0; }', 'message First { }']


def placed(e, k):
    """A schema whose deciding text stands behind e['at'] units of e['kind']."""
    n, kind = e['at'], e['kind']
    good = 'message Last { int32 x = 1; repeated string s = 2; }'
    last = good if e['input'] == 'valid' else (SYNTACTIC + SEMANTIC)[k % 12]
    head = 'syntax = "proto3"; package cli.p; message First { bool b = 1; }'
    if kind == 'lines':
        return head + '\n' * n + last + '\n'
    if kind == 'columns':
        return head + '\n' + ' ' * n + last + '\n'
    if kind == 'comment':
        return head + '\n/*' + 'x' * n + '*/ //' + 'y' * n + '\n' + last + '\n'
    if kind == 'messages':
        return head + ''.join('message M%d { First f = 1; }\n' % i for i in range(n)) + last + '\n'
    if kind == 'options':
        return head + ''.join('option some_%d = "v";\n' % i for i in range(n)) + last + '\n'
    return head + 'message F {' + ''.join('int32 f%d = %d;\n' % (i, i + 1) for i in range(n)) + '}' + last + '\n'


def realise_placed(w, e, want, k):
    d = w.scratch()
    pin = os.path.join(d, 'p.proto')
    text = placed(e, k)
    with open(pin, 'w') as f:
        f.write(text)
    args = [pin]
    pout = os.path.join(d, 'out.hh')
    if e['args'] == 2:
        args.append(pout)
        with open(pout, 'wb') as f:
            f.write(OLD)
    obs = invoke(w, args, 'file', False)
    desc = 'args %d, %s schema after %d %s (%r): status %s, message %r' % (e['args'], e['input'], e['at'], e['kind'], text[-60:], obs.status, obs.stderr[:200])
    bad = judge(w, e, want, obs, obs.std, OLD, 'null' if e['args'] == 1 else 'seen', pout, d) if e['input'] == 'rejected' else None
    if e['input'] == 'valid':
        where = obs.std if e['args'] == 1 else open(pout, 'rb').read()
        if obs.status != 0:
            bad = 'exit status'
        elif b'struct Last_' not in where or not where.rstrip().endswith(b'#endif') and b'#endif' not in where[-200:]:
            bad = 'the header is not complete'
    shutil.rmtree(d, ignore_errors=True)
    shutil.rmtree(obs.dir, ignore_errors=True)
    return bad, desc


def realise(w, e, want, k, user_ok):
    """Makes the environment for the real tool; returns a complaint or None."""
    d = w.scratch()
    pin = w.input(e['input'], d, k)
    feed = None
    if e['input'] == 'fifo':
        feed = (pin, VALID.encode())
        good = None
    elif e['input'] == 'link':
        good = reference(w, pin)
    elif e['input'] in ('valid', 'large', 'bare'):
        good = reference(w, pin)
    else:
        good = b''
    old = OLD
    kind = e['output']
    pout = os.path.join(d, 'out.hh')
    seen = pout       # where the contents are
    if kind == 'self':
        pin2 = os.path.join(d, 'self.proto')
        shutil.copy(pin, pin2)
        old = open(pin2, 'rb').read()
        if e['input'] != 'rejected':
            good = reference(w, pin2)
        pin = pout = seen = pin2
        os.chmod(pin2, 0o666)
    elif kind == 'old':
        open(pout, 'wb').write(old)
    elif kind == 'longer':
        old = OLD * 200000
        open(pout, 'wb').write(old)
    elif kind in ('link', 'dangling'):
        seen = os.path.join(d, 'target.hh')
        os.symlink('target.hh', pout)
        if kind == 'link':
            open(seen, 'wb').write(old)
    elif kind == 'null':
        pout = '/dev/null'
    elif kind == 'full':
        pout = '/dev/full'
    elif kind == 'dir':
        os.mkdir(pout)
    elif kind == 'nodir':
        pout = seen = os.path.join(d, 'no', 'out.hh')
    elif kind == 'notdir':
        open(os.path.join(d, 'plain'), 'w').close()
        pout = seen = os.path.join(d, 'plain', 'out.hh')
    elif kind == 'readonly':
        open(pout, 'wb').write(old)
        os.chmod(pout, 0o444)
    elif kind == 'noname':
        pout = seen = ''
    for p in (pout, seen):
        if kind in ('old', 'longer', 'link') and os.path.isfile(p):
            os.chmod(p, 0o666)
    n = e['args']
    args = [[], [pin], [pin, pout], [pin, pout, 'extra'], [pin, pout, '-x', '--force']][n]
    if n not in (1, 2) and kind == 'none':
        args = [[], [], [], [pin, pin, pin], [pin, pin, pin, pin]][n]
    user = kind == 'readonly' or e['input'] == 'unreadable'
    if user and not user_ok:
        return 'skip', None
    limit = None
    text = good or b''
    if kind == 'limit' or e['std'] == 'limit':
        size = len(good) if good else 1000
        cut = [0, 1, size // 2, size - 1, 4096, 8191, 8192, 49152, size - 4096, size - size % 4096 - (1 if size % 4096 == 0 else 0)]
        limit = max(0, min(cut[k % len(cut)], size - 1))
    obs = invoke(w, args, e['std'], user, limit, feed=feed)
    bad = judge(w, e, want, obs, good, old, kind, seen, d)
    desc = 'args %s input %s%s output %s stdout %s%s: status %s, message %r' % (n, e['input'], ' (%s)' % os.path.basename(pin) if e['input'] == 'rejected' else '', kind, e['std'], '' if limit is None else ' limit %d' % limit, obs.status, obs.stderr[:200])
    return bad, desc


def judge(w, e, want, obs, good, old, kind, seen, d):
    if obs.status == 'timeout':
        return 'does not end'
    if obs.status < 0:
        return 'is ended by a signal'
    if (obs.status == 0) != (want['status'] == 0):
        return 'exit status'
    if want['message'] and not obs.stderr.strip():
        return 'no message'
    if want['std'] == 'none' and obs.std:
        return 'writes to the standard output'
    if want['std'] == 'header' and (obs.std != good if good is not None else b'struct A_' not in obs.std):
        return 'the header on the standard output is not complete'
    if kind in ('null', 'full', 'none'):
        if kind == 'none' and sorted(os.listdir(d)) not in ([], ['fifo.proto']):
            return 'creates files'
        return None
    have = open(seen, 'rb').read() if seen and os.path.isfile(seen) else None
    if want['out'] == 'header' and (have != good if good is not None else have is None or b'struct A_' not in have):
        return 'the header in the file is not complete'
    if want['out'] == 'old' and kind != 'dir' and have != old:
        return 'what was in the output file is changed'
    if want['out'] == 'old' and kind == 'dir' and (not os.path.isdir(seen) or os.listdir(seen)):
        return 'the directory is changed'
    if want['out'] == 'absent' and have is not None:
        return 'an output file is created'
    return None


CALL = re.compile(r'^(\w+)\((\d+|AT_FDCWD),')


def faults(run, w, e, want, rng):
    """Every system call on the file fails, one at a time."""
    d = w.scratch()
    pin = w.input(e['input'], d, 0)
    good = reference(w, pin)
    pout = os.path.join(d, 'out.hh')
    args = [pin] + ([] if e['output'] == 'none' else [pout])
    names = 'write,writev,pwrite64' if e['fault'] == 'write' else 'read,readv,pread64'
    log = os.path.join(d, 'log')
    invoke(w, args, 'file', False, strace=['strace', '-o', log, '-e', 'trace=openat,open,' + names])
    lines = open(log, errors='replace').read().split('\n')
    # the descriptor of the file: the last one opened on that name
    fd = '1'
    start = 0
    for i, l in enumerate(lines):
        m = re.match(r'open(?:at)?\(.*?"(.*?)".*= (\d+)$', l)
        if m and m.group(1) == (pin if e['fault'] == 'read' else pout if e['output'] != 'none' else None):
            fd, start = m.group(2), i
    counts = {}
    points = []
    for i, l in enumerate(lines):
        m = CALL.match(l)
        if not m or m.group(1) in ('open', 'openat'):
            continue
        counts[m.group(1)] = counts.get(m.group(1), 0) + 1
        if m.group(2) == fd and i >= start:
            points.append((m.group(1), counts[m.group(1)]))
    res = []
    if len(points) > 40:
        points = points[:15] + rng.sample(points[15:-15], 10) + points[-15:]
    for call, nth in points:
        for error in ('EIO', 'ENOSPC') if e['fault'] == 'write' else ('EIO',):
            if os.path.isfile(pout):
                os.remove(pout)
            if e['output'] == 'old':
                open(pout, 'wb').write(OLD)
            obs = invoke(w, args, 'file', False, strace=['strace', '-o', log, '-e', 'trace=' + call, '-e', 'inject=%s:error=%s:when=%d' % (call, error, nth)])
            if 'INJECTED' not in open(log, errors='replace').read():
                continue
            # a call that only finds the end of the input may fail without harm if the whole schema was read
            bad = judge(w, e, want, obs, good, OLD, e['output'], pout, d) if e['output'] != 'none' else judge(w, e, want, obs, good, OLD, 'null', '', d)
            res.append((bad, '%s number %d on the %s fails with %s: status %s, message %r' % (call, nth, 'input' if e['fault'] == 'read' else 'output', error, obs.status, obs.stderr[:200])))
    return res


def check(run):
    rng = random.Random(env.SEED)
    tool = run.protogen()
    r = run.tlc('Cli')
    run.cov['states'] += r.distinct
    run.cov['transitions'] += r.generated
    run.cov['model_states_explored'] = r.distinct
    behaviours = sorted((json.loads(x) for x in set(r.printed('CASE '))), key=lambda b: json.dumps(b, sort_keys=True))
    run.progress('Cli: %d environments' % len(behaviours))
    w = World(run, tool)
    try:
        user_ok = can_demote()
        inject_ok = can_inject(w.top)
        if not user_ok:
            run.notes.append('no unprivileged user here: environments with permissions left out')
        if not inject_ok:
            run.notes.append('strace cannot inject faults here: environments with failing system calls left out')
        # the references have to be headers
        for n in ('valid', 'large', 'bare'):
            p = os.path.join(w.in_, n + '.proto')
            o = invoke(w, [p], 'file', False)
            c = cxx.write(os.path.join(w.top, n + '.cc'), o.std.decode('utf-8', 'surrogateescape') + {'valid': '\ncli::p::B b;\n', 'large': '\ncli::M219 m;\n', 'bare': ''}[n])
            e = cxx.compile_(cxx.GXX + ['-x', 'c++', '-fsyntax-only', c]) if o.status == 0 else 'status %s: %r' % (o.status, o.stderr[:300])
            if e:
                run.violation('header:' + n, 'the header of a valid schema is not complete: ' + e, p)
        jobs = []
        fj = []
        for e, want in behaviours:
            if e['fault'] != 'none':
                fj.append((e, want))
                continue
            times = 1
            if e['kind'] != 'any':
                times = 2 if e['input'] == 'rejected' else 1
            elif e['input'] == 'rejected':
                times = len(REJECTED) if e['output'] in ('none', 'old', 'new') and e['std'] == 'file' else 2
            if e['output'] == 'limit' or e['std'] == 'limit':
                times = 10
            if env.THOROUGH:
                times *= 3
            for k in range(times):
                jobs.append((e, want, k if e['kind'] == 'any' and (e['input'] != 'rejected' or times > 2) else rng.randrange(99)))

        def one(j):
            if run.hangs:
                return 'skip', ''
            res = realise_placed(w, j[0], j[1], j[2]) if j[0]['kind'] != 'any' else realise(w, j[0], j[1], j[2], user_ok)
            if res[0] == 'does not end':
                run.hangs += 1
            return res
        skipped = 0
        for j, (bad, desc) in zip(jobs, env.pmap(one, jobs)):
            if bad == 'skip':
                skipped += 1
            elif bad:
                key = 'cli:' + hashlib.sha1(json.dumps([j[0], j[2]], sort_keys=True).encode()).hexdigest()[:10]
                run.violation(key, '%s: %s' % (bad, desc), json.dumps([j[0], j[1]]) + '\n' + desc)
        run.stop_if_hung()
        run.cov['traces_validated_against_impl'] += len(jobs) - skipped
        run.progress('%d runs' % (len(jobs) - skipped))
        run.sample({'environment': jobs[5][0], 'specified': jobs[5][1]})
        run.sample({'environment': jobs[-5][0], 'specified': jobs[-5][1]})
        if inject_ok:
            n = 0
            for (e, want), res in zip(fj, env.pmap(lambda x: faults(run, w, x[0], x[1], random.Random(env.SEED)), fj)):
                n += len(res)
                for bad, desc in res:
                    if bad:
                        run.violation('fault:' + hashlib.sha1((json.dumps(e, sort_keys=True) + desc).encode()).hexdigest()[:10], '%s: %s' % (bad, desc), json.dumps([e, want]) + '\n' + desc)
                if res:
                    run.sample({'environment': e, 'fault': res[-1][1]})
            run.cov['faults_injected'] = n
            run.cov['traces_validated_against_impl'] += n
            run.progress('%d injected faults' % n)
        # the same schema from elsewhere gives the same header
        for i in range(30 if env.THOROUGH else 6):
            s = schema.random_schema(rng, 'r%d' % i)
            d = w.scratch()
            p = os.path.join(d, 's.proto')
            open(p, 'w', encoding='utf-8').write(s.proto())
            a = invoke(w, [p], 'file', False)
            b = invoke(w, [p, os.path.join(d, 'o.hh')], 'full', False)
            c = invoke(w, ['s.proto', 'p.hh'], 'file', False, cwd=d)
            x = invoke(w, ['./s.proto'], 'pipe', False, cwd=d)
            got = [a.std, x.std] + [open(os.path.join(d, n), 'rb').read() if os.path.exists(os.path.join(d, n)) else None for n in ('o.hh', 'p.hh')]
            if any(o.status != 0 for o in (a, b, c, x)) or any(g != got[0] for g in got) or b.std or c.std:
                run.violation('same:' + hashlib.sha1(s.proto().encode()).hexdigest()[:10], 'the header depends on where it is written: status %s' % [o.status for o in (a, b, c, x)], s.proto())
            run.cov['traces_validated_against_impl'] += 4
    finally:
        w.close()
