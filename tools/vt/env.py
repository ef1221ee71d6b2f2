"""Shared machinery of the checks: building protogen, running TLC, evidence and verdicts."""
import hashlib, json, os, re, shutil, subprocess, sys, time, concurrent.futures as cf

VERIF = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
REPO = os.environ.get('VERIF_REPO', '/repo')
SPEC = os.path.join(VERIF, 'spec')
HARNESS = os.path.join(VERIF, 'harness')
SEED = int(os.environ.get('VERIF_SEED', '1'))
TIER = os.environ.get('VERIF_TIER', 'quick')
THOROUGH = TIER == 'thorough'
JOBS = os.cpu_count() or 4
SAN = ['-fsanitize=address,undefined', '-fno-sanitize=shift,alignment', '-fno-sanitize-recover=undefined', '-fno-omit-frame-pointer', '-g1']
TLC_CP = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'


class CheckError(Exception):
    """The check itself could not be carried out (neither held nor violated)."""


def sh(cmd, timeout=600, env=None, cwd=None, stdin=None, text=True):
    e = dict(os.environ)
    if env:
        e.update(env)
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, env=e, cwd=cwd,
                          input=stdin, text=text)


def pmap(fn, items, jobs=JOBS):
    items = list(items)
    if not items:
        return []
    with cf.ThreadPoolExecutor(max_workers=jobs) as ex:
        return list(ex.map(fn, items))


class Run:
    """One execution of one check."""

    def __init__(self, prop, level='model_checking'):
        self.prop = prop
        self.level = level
        self.t0 = time.time()
        self.dir = os.path.join(VERIF, 'build', '%s-%d' % (prop, os.getpid()))
        shutil.rmtree(self.dir, ignore_errors=True)
        os.makedirs(self.dir)
        self.violations = []     # (key, text, replay content)
        self.cov = {'states': 0, 'transitions': 0, 'traces_validated_against_impl': 0, 'samples': []}
        self.notes = []
        self._tools = {}
        self.hangs = 0           # confirmed: what remains is skipped, the verdict is known

    # ---------------------------------------------------------------- building

    def path(self, *a):
        p = os.path.join(self.dir, *a)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        return p

    def _cmake(self, key, flags=''):
        """Builds protogen from the working tree of the repository. A tree that does not build is an error."""
        if key not in self._tools:
            b = os.path.join(self.dir, key)
            r = sh(['cmake', '-S', REPO, '-B', b, '-G', 'Unix Makefiles', '-DCMAKE_BUILD_TYPE=Release', '-Wno-dev', '-DCMAKE_CXX_FLAGS=' + flags])
            if r.returncode != 0:
                raise CheckError('cmake failed: ' + r.stderr[-2000:])
            r = sh(['make', '-C', b, '--no-print-directory', '-j%d' % JOBS, 'protogen'])
            if r.returncode != 0:
                raise CheckError('protogen does not build: ' + (r.stdout + r.stderr)[-2000:])
            if not os.path.isfile(os.path.join(b, 'protogen')):
                raise CheckError('protogen was not built')
            self._tools[key] = b
        return self._tools[key]

    def _lib(self, b):
        for root, _, files in os.walk(b):
            for f in files:
                if f.startswith('libprotogen') and f.endswith('.a'):
                    return os.path.join(root, f), [os.path.join(REPO, 'include'), b, os.path.join(b, '__include'),
                                                   os.path.join(REPO, 'source')]
        raise CheckError('static library not found')

    def protogen(self):
        return os.path.join(self._cmake('protogen-build'), 'protogen')

    def libprotogen(self):
        return self._lib(self._cmake('protogen-build'))

    def sanitised(self):
        """The same with memory errors detected: (tool, library, include directories)."""
        b = self._cmake('protogen-san', ' '.join(SAN))
        return (os.path.join(b, 'protogen'),) + self._lib(b)

    def progress(self, msg):
        print('[%6.1fs] %s: %s' % (time.time() - self.t0, self.prop, msg), file=sys.stderr, flush=True)

    # ---------------------------------------------------------------- TLC

    def tlc(self, module, cfg=None, env=None, workers=JOBS, timeout=int(__import__("os").environ.get("TLC_TIMEOUT","800")), args=(), heap='8g', expect_ok=True):
        """Runs TLC on a module of /verif/spec; returns its output lines. Raises CheckError on a TLC error."""
        meta = self.path('tlc-%s-%d' % (module, len(os.listdir(self.dir))), 'x')
        meta = os.path.dirname(meta)
        cmd = ['java', '-Djava.io.tmpdir=' + meta, '-Xmx' + heap, '-Xss64m', '-XX:+UseParallelGC', '-cp', TLC_CP, 'tlc2.TLC',
               '-workers', str(workers), '-metadir', meta, '-noGenerateSpecTE',
               '-config', (cfg or module) + '.cfg'] + list(args) + [module + '.tla']
        e = {k: str(v) for k, v in (env or {}).items()}
        try:
            r = sh(cmd, timeout=timeout, env=e, cwd=SPEC)
        except subprocess.TimeoutExpired as ex:
            raise CheckError('TLC timed out on ' + module + ' '.join(re.findall(r'Progress.*', (ex.stdout or b'').decode('latin-1'))[-2:]))
        shutil.rmtree(meta, ignore_errors=True)
        out = r.stdout
        m = re.search(r'(\d+) states generated, (\d+) distinct states found', out)
        gen, dist = (int(m.group(1)), int(m.group(2))) if m else (0, 0)
        ok = r.returncode == 0 and 'Model checking completed. No error has been found' in out
        if expect_ok and not ok:
            out = '\n'.join(x for x in out.split('\n') if not x.startswith('"CASE '))
            raise CheckError('TLC failed on %s (%d): %s' % (module, r.returncode, out[-3000:] + r.stderr[-1000:]))
        return TlcResult(out, gen, dist, ok)

    # ---------------------------------------------------------------- verdict

    def violation(self, key, text, replay):
        """key identifies the failing input or call; replay is what is needed to see it again."""
        self.violations.append((key, text, replay))

    def hang(self, key, text, replay):
        """A violation after which the check ends: waiting for more of them would take all its time."""
        self.hangs += 1
        self.violation(key, text, replay)

    def stop_if_hung(self):
        if self.hangs:
            raise CheckError('stopped after an operation that does not return')

    def sample(self, s):
        if len(self.cov['samples']) < 6:
            self.cov['samples'].append(s if len(str(s)) < 1200 else str(s)[:1200] + '...')

    def abandon(self):
        if not os.environ.get('VERIF_KEEP'):
            shutil.rmtree(self.dir, ignore_errors=True)

    def finish(self):
        known = known_findings(self.prop)
        cov = dict(self.cov)
        cov['notes'] = self.notes
        new = [v for v in self.violations if v[0] not in known]
        ev = {'property': self.prop, 'tier': TIER, 'seed': SEED, 'level': self.level, 'coverage': cov,
              'wall_s': round(time.time() - self.t0, 1), 'violations': len(new),
              'assumptions': ['the specification reads the README and RFC 8259 as DESIGN.md says', 'TLC, the C++ compilers and the driver are trusted']}
        if new:
            cov['violated'] = [v[0] + ': ' + v[1][:300] for v in new[:20]]
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', self.prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        for k in sorted({v[0] for v in self.violations if v[0] in known}):
            print('KNOWN-FINDING: property=%s %s' % (self.prop, known[k]))
        if not os.environ.get('VERIF_KEEP'):
            shutil.rmtree(self.dir, ignore_errors=True)
        if new:
            d = os.path.join(VERIF, 'replay')
            os.makedirs(d, exist_ok=True)
            name = os.path.join(d, '%s-%s.txt' % (self.prop, hashlib.sha1(new[0][0].encode()).hexdigest()[:10]))
            with open(name, 'w') as f:
                for k, t, rp in new[:10]:
                    f.write('%s\n%s\n%s\n\n' % (k, t, rp))
            for k, t, rp in new[:5]:
                print('  %s: %s' % (k, t[:400]))
            print('VIOLATION property=%s replay=%s' % (self.prop, name))
            return 1
        print('%s held: %s' % (self.prop, json.dumps({k: v for k, v in cov.items() if isinstance(v, int)})))
        return 0


class TlcResult:
    def __init__(self, out, generated, distinct, ok):
        self.out, self.generated, self.distinct, self.ok = out, generated, distinct, ok

    def printed(self, prefix):
        """Lines printed by PrintT of a string that starts with the prefix."""
        res = []
        for line in self.out.split('\n'):
            if line.startswith('"' + prefix):
                res.append(json.loads(line)[len(prefix):] if line.endswith('"') else line)
        return res


def known_findings(prop):
    res = {}
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r'finding: property=(\S+) key=(\S+) (.*)', line)
            if m and m.group(1) == prop:
                res[m.group(2)] = m.group(3)
    return res


def write_json(path, obj):
    with open(path, 'w') as f:
        json.dump(obj, f, separators=(',', ':'))


def write_ndjson(path, objs):
    with open(path, 'w') as f:
        for o in objs:
            f.write(json.dumps(o, separators=(',', ':')))
            f.write('\n')
