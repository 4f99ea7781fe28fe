"""Shared machinery of the checks: builds the harness from /repo, runs TLC,
runs programs on the real crate, validates what was recorded, and reports."""
import json, os, random, re, subprocess, sys, time, shutil, hashlib, threading

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, 'spec')
BUILD = os.environ.get('VERIF_BUILD', os.path.join(VERIF, 'build'))
REPO = '/repo'
ENV = dict(os.environ, HOME='/root', RUSTUP_TOOLCHAIN='nightly-x86_64-unknown-linux-gnu',
           CARGO_NET_OFFLINE='true', CARGO_TERM_COLOR='never', RUSTC_WRAPPER='',
           PATH='/root/.cargo/bin:' + os.environ.get('PATH', ''))
ENV.pop('RUSTFLAGS', None)

JAR = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'


class ToolError(Exception):
    pass


def log(*a):
    print(*a, file=sys.stderr, flush=True)


class Check:
    def __init__(self, prop, level='model_checking'):
        self.prop = prop
        self.level = level
        self.seed = int(os.environ.get('VERIF_SEED', '1') or '1')
        self.tier = os.environ.get('VERIF_TIER', 'quick')
        self.thorough = self.tier == 'thorough'
        self.rng = random.Random('%s/%s' % (self.seed, prop))
        self.t0 = time.time()
        self.states = 0
        self.transitions = 0
        self.validated = 0
        self.samples = []
        self.notes = {}
        self.violations = []
        self.known = []
        self.exhaustive = True
        self.assumptions = []
        self.dir = os.path.join(BUILD, 'run', prop)
        shutil.rmtree(self.dir, ignore_errors=True)
        os.makedirs(self.dir)
        shutil.rmtree(os.path.join(VERIF, 'build', 'replay', prop), ignore_errors=True)

    def sample(self, x, limit=6):
        if len(self.samples) < limit:
            self.samples.append(x)

    def violation(self, what, detail):
        n = len(self.violations)
        d = os.path.join(VERIF, 'build', 'replay', self.prop)
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, '%d.json' % n)
        detail = dict(detail, property=self.prop, what=what, seed=self.seed, tier=self.tier)
        with open(p, 'w') as f:
            json.dump(detail, f, indent=1, default=str, ensure_ascii=True)
        self.violations.append((what, p))
        if n < 5:
            log('violation:', what, json.dumps(detail, default=str)[:1500])

    def finding(self, key):
        """A listed finding was seen again."""
        if key not in self.known:
            self.known.append(key)

    def finish(self):
        cov = dict(states=self.states, transitions=self.transitions,
                   traces_validated_against_impl=self.validated,
                   samples=self.samples or ['(none)'])
        cov.update(self.notes)
        ev = dict(property=self.prop, tier=self.tier if self.tier in ('quick', 'thorough') else 'quick',
                  seed=self.seed, level=self.level, coverage=cov,
                  assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 2),
                  violations=len(self.violations))
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', self.prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        for k in self.known:
            print('KNOWN-FINDING: property=%s %s' % (self.prop, k))
        shutil.rmtree(self.dir, ignore_errors=True)
        if self.violations:
            for what, p in self.violations[:20]:
                print('VIOLATION property=%s replay=%s' % (self.prop, p))
            sys.exit(1)
        if self.validated == 0 or self.states == 0:
            raise ToolError('nothing was checked')
        print('ok property=%s states=%d validated=%d wall=%.1fs' % (
            self.prop, self.states, self.validated, time.time() - self.t0))
        sys.exit(0)


# ---------------------------------------------------------------- known findings

def known_findings(prop):
    """key -> text of the findings listed for the property"""
    r = {}
    for line in open(os.path.join(VERIF, 'known_findings.txt')):
        m = re.match(r'known: property=(\S+) key=(\S+) (.*)', line.strip())
        if m and m.group(1) == prop:
            r[m.group(2)] = m.group(3)
    return r


# ---------------------------------------------------------------- build

def cargo(args, cwd, timeout=800):
    p = subprocess.run(['cargo'] + args, cwd=cwd, env=ENV, stdout=subprocess.PIPE,
                       stderr=subprocess.PIPE, timeout=timeout, text=True)
    return p


def build_core():
    """Builds the harness from /repo's working tree. Incremental per cargo's
    fingerprints; one build directory, guarded by cargo's lock."""
    tgt = os.path.join(BUILD, 'core')
    p = cargo(['build', '--offline', '--locked', '--quiet', '--target-dir', tgt],
              os.path.join(VERIF, 'harness', 'core'))
    if p.returncode != 0:
        raise ToolError('harness does not build:\n' + p.stderr[-4000:])
    return os.path.join(tgt, 'debug', 'gencoh')


# ---------------------------------------------------------------- harness

def _limit():
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (8 << 30, 8 << 30))


_hung = []   # hangs seen in this process: there is no need to wait as long again


def _run_all(exe, todo, timeout):
    data = ''.join(json.dumps(c) + '\n' for c in todo)
    try:
        p = subprocess.run([exe], input=data.encode(), stdout=subprocess.PIPE,
                           stderr=subprocess.PIPE, env=ENV, timeout=60 if _hung else timeout, preexec_fn=_limit)
        return p.returncode, p.stdout, p.stderr
    except subprocess.TimeoutExpired as e:
        return 'timeout', e.stdout or b'', e.stderr or b''


def _run_slowly(exe, todo):
    """The slow and safe mode which tells which case it was: each case is
    written out when it is done, and has to be done after a while."""
    p = subprocess.Popen([exe], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                         env=dict(ENV, GENCOH_SYNC='1'), preexec_fn=_limit)
    so, se, last = [], [], [time.time()]

    def feed():
        try:
            for c in todo:
                p.stdin.write((json.dumps(c) + '\n').encode())
            p.stdin.close()
        except OSError:
            pass

    def read():
        for l in p.stdout:
            so.append(l)
            last[0] = time.time()

    ts = [threading.Thread(target=f) for f in (feed, read, lambda: se.append(p.stderr.read()))]
    [t.start() for t in ts]
    hung = False
    while p.poll() is None:
        if time.time() - last[0] > 20:
            hung = True
            p.kill()
            p.wait()
        time.sleep(0.05)
    [t.join() for t in ts]
    return 'timeout' if hung else p.returncode, b''.join(so), b''.join(se)


def _run_chunk(exe, cases, timeout):
    """Returns a list of observations; {'crash': ...} for the case on which the
    process died or hung."""
    out = []
    todo = list(cases)
    first = True
    crashes = 0
    while todo:
        rc, so, se = _run_all(exe, todo, timeout) if first else _run_slowly(exe, todo)
        if rc == 3:
            raise ToolError('harness: ' + se.decode()[-2000:])
        if rc == 0:
            lines = so.split(b'\n')
            assert len(lines) == len(todo) + 1, (len(lines), len(todo))
            out += [json.loads(l) for l in lines[:-1]]
            return out
        if first:
            first = False
            continue
        lines = so.split(b'\n')[:-1]
        lines = lines[:len(todo) - 1]
        out += [json.loads(l) for l in lines]
        out.append({'crash': str(rc), 'stderr': se.decode(errors='replace')[-500:]})
        todo = todo[len(lines) + 1:]
        crashes += 1
        if rc == 'timeout':
            _hung.append(1)
        if crashes > 5 or rc == 'timeout':
            out += [{'crash': 'not run'} for _ in todo]
            return out
    return out


def run_cases(exe, cases, timeout=240, jobs=8):
    n = max(1, (len(cases) + jobs - 1) // jobs)
    chunks = [cases[i:i + n] for i in range(0, len(cases), n)]
    res = [None] * len(chunks)
    errs = []

    def go(k):
        try:
            res[k] = _run_chunk(exe, chunks[k], timeout)
        except BaseException as e:
            errs.append(e)
    ts = [threading.Thread(target=go, args=(k,)) for k in range(len(chunks))]
    [t.start() for t in ts]
    [t.join() for t in ts]
    if errs:
        raise errs[0]
    return [o for r in res for o in r]


# ---------------------------------------------------------------- TLC

def cfg_text(consts, invariants, init='Init', next='Next', extra=''):
    s = ''
    if consts:
        s += 'CONSTANTS\n'
        for k, v in consts.items():
            if isinstance(v, str) and v.startswith('<-'):
                s += '  %s <- %s\n' % (k, v[2:].strip())
            elif isinstance(v, bool):
                s += '  %s = %s\n' % (k, 'TRUE' if v else 'FALSE')
            elif isinstance(v, int):
                s += '  %s = %d\n' % (k, v)
            elif isinstance(v, (set, list, tuple)):
                s += '  %s = {%s}\n' % (k, ', '.join(json.dumps(x) if isinstance(x, str) else str(x) for x in v))
            else:
                s += '  %s = "%s"\n' % (k, v)
    s += 'INIT %s\nNEXT %s\n' % (init, next)
    if invariants:
        s += 'INVARIANTS ' + ' '.join(invariants) + '\n'
    s += 'CHECK_DEADLOCK FALSE\n' + extra
    return s


_tlc_n = [0]


def tlc(ck, module, consts, invariants, env=None, timeout=800, heap='6g', init='Init',
        next='Next', extra='', workers=8, args=()):
    """Runs TLC; returns dict(states, transitions, lines (printed), error)."""
    _tlc_n[0] += 1
    d = os.path.join(ck.dir, 'tlc%d' % _tlc_n[0])
    os.makedirs(d)
    cfg = os.path.join(d, module + '.cfg')
    with open(cfg, 'w') as f:
        f.write(cfg_text(consts, invariants, init, next, extra))
    for f in os.listdir(SPEC):
        if f.endswith('.tla'):
            os.symlink(os.path.join(SPEC, f), os.path.join(d, f))
    e = dict(os.environ)
    e.update(env or {})
    cmd = ['java', '-Xmx' + heap, '-Xss64m', '-XX:+UseParallelGC', '-cp', JAR,
           '-Djava.io.tmpdir=' + d, 'tlc2.TLC', '-workers', str(workers), '-fp', '1',
           '-metadir', os.path.join(d, 'meta'), '-noGenerateSpecTE', '-config', cfg] + list(args) + [module + '.tla']
    try:
        p = subprocess.run(cmd, cwd=d, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           timeout=timeout * (3 if ck.thorough else 1))
    except subprocess.TimeoutExpired:
        raise ToolError('TLC timed out on ' + module)
    out = p.stdout.decode(errors='replace')
    lines = []
    for l in out.split('\n'):
        if l.startswith('"') and l.endswith('"') and len(l) > 2:
            try:
                lines.append(json.loads(l))
            except ValueError:
                # TLC only escapes quotes and backslashes
                lines.append(l[1:-1].replace('\\"', '"').replace('\\\\', '\\'))
    m = re.search(r'(\d+) states generated, (\d+) distinct states found', out)
    if 'Model checking completed. No error' not in out or not m:
        tail = '\n'.join(l for l in out.split('\n') if not l.startswith('"'))
        raise ToolError('TLC failed on %s:\n%s' % (module, tail[-3500:]))
    shutil.rmtree(d, ignore_errors=True)
    ck.states += int(m.group(2))
    ck.transitions += int(m.group(1))
    return dict(states=int(m.group(2)), transitions=int(m.group(1)), lines=lines, out=out)


def write_trace(ck, name, cases):
    p = os.path.join(ck.dir, name + '.ndjson')
    with open(p, 'w') as f:
        for c in cases:
            f.write(json.dumps(c) + '\n')
    return p


def cp(s):
    return [ord(c) for c in s]


def uncp(v):
    return ''.join(chr(c) if 0 <= c < 0x110000 else '\\<%d>' % c for c in v)
