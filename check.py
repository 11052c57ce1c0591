#!/usr/bin/env python3
"""Runner of the deterministic simulations.

  check.py build                  build all simulators from /repo's working tree
  check.py run PROP               decide one property (VERIF_SEED, VERIF_TIER)
  check.py replay FILE            replay a violation file, exit 1 if it reproduces
  check.py one PROP SEED INDEX    print one simulated run as text

Exit status of run: 0 the property held on everything explored, 1 with a line
"VIOLATION property=<id> replay=<path>", 2 the check itself failed.
"""
import concurrent.futures as cf
import fcntl
import hashlib
import json
import os
import re
import shutil
import signal
import struct
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.environ.get('VERIF_BUILD', os.path.join(HERE, '_build'))
NCPU = max(1, min(8, len(os.sched_getaffinity(0))))
FLAGS = '-std=c++20 -O1 -g1 -fno-omit-frame-pointer -ftrivial-auto-var-init=pattern -Wno-dangling-reference'.split()
SANITIZE = {'memory': '-fsanitize=address,undefined -fno-sanitize-recover=all'.split(),
            'thread': '-fsanitize=thread -DSIM_THREADS'.split()}
WRAPPED = ('EVP_MD_CTX_new EVP_DigestInit EVP_DigestInit_ex EVP_DigestInit_ex2 EVP_DigestUpdate EVP_DigestFinal '
           'EVP_DigestFinal_ex EVP_Digest').split()
SIMS = {
    # simulator: (harness sources, directories of /repo/src, or of /repo if they start with a slash[, link options[, sanitizer]])
    'stun': (['stun_world.cpp', 'stun_client.cpp', 'stun_common.cpp', 'stun_ref.cpp', 'main.cpp'],
             ['stun', 'crypto', 'net', 'util', 'precis', 'clock', 'stat']),
    'rtp': (['rtp_world.cpp', 'main.cpp'], ['rtp', 'util', 'stat']),
    'ice': (['ice_world.cpp', 'main.cpp'], ['ice', 'net', 'util']),
    'ilist': (['ilist_world.cpp', 'main.cpp'], ['util']),
    'clock': (['clock_world.cpp', 'main.cpp'], ['clock', 'util']),
    'thread': (['thread_world.cpp', 'stun_client.cpp', 'stun_common.cpp', 'stun_ref.cpp', 'main.cpp'],
               ['stun', 'crypto', 'net', 'util', 'precis', 'clock', 'stat', 'ice', 'abnf', 'rtp'], [], 'thread'),
    'node': (['node_world.cpp', 'stun_common.cpp', 'stun_ref.cpp', 'main.cpp'],
             ['stun', 'crypto', 'net', 'util', 'precis', 'clock', 'stat', 'ice', 'abnf', '/node'],
             ['-Wl,--wrap=' + f for f in WRAPPED]),
}
STUN = ('C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 S01 S02 S03 S04 W01 W02 H01 H02').split()
# property -> [(simulator, runs in the quick tier, runs in the thorough tier)]
PLAN = {p: [('stun', 16000, 1000000)] for p in STUN}
PLAN['C12'] = [('stun', 13000, 1000000)]
PLAN['W03'] = [('stun', 12000, 800000), ('rtp', 60000, 4000000)]
PLAN['W04'] = [('stun', 12000, 800000), ('rtp', 60000, 4000000)]
PLAN['R01'] = [('rtp', 120000, 8000000)]
PLAN['I01'] = [('ice', 60000, 4000000)]
PLAN['I02'] = [('ice', 60000, 4000000)]
PLAN['I03'] = [('ice', 100000, 6000000)]
for p_ in ('B01', 'B02', 'C13'):
    PLAN[p_] = [('node', 10000, 600000)]
PLAN['M01'] = [('stun', 2500, 150000), ('node', 5000, 300000), ('rtp', 30000, 2000000), ('ice', 30000, 2000000)]
PLAN['P01'] = [('thread', 3000, 200000)]
PLAN['B03'] = [('node', 40000, 3000000)]
PLAN['H03'] = [('node', 40000, 3000000)]
PLAN['L01'] = [('ilist', 300000, 20000000)]
PLAN['T01'] = [('clock', 200000, 10000000)]
PLAN['T02'] = [('clock', 120000, 6000000)]
TIME_CAP = {'quick': 150, 'thorough': 1500}      # seconds per simulator
HANG_S = 90                                      # one run takes milliseconds
ENV = dict(os.environ,
           ASAN_OPTIONS='detect_leaks=0:exitcode=99:handle_abort=1:allocator_may_return_null=0:'
                        'max_malloc_fill_size=65536:malloc_fill_byte=190:symbolize=1',
           TSAN_OPTIONS='halt_on_error=1:exitcode=99:handle_abort=1',
           UBSAN_OPTIONS='print_stacktrace=1:exitcode=99', LC_ALL='C')


class CheckError(Exception):
    pass


# ------------------------------------------------------------------- building
def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode())
        h.update(b'\0')
    return h.hexdigest()[:24]


def read(p):
    with open(p, 'rb') as f:
        return f.read()


def tree(root, exts):
    out = []
    for d, dirs, files in os.walk(root):
        dirs.sort()
        for f in sorted(files):
            if f.endswith(exts):
                out.append(os.path.join(d, f))
    return out


def mode(s):
    return SIMS[s][3] if len(SIMS[s]) > 3 else 'memory'


class LinkError(Exception):
    pass


def build(sims):
    """Build the named simulators from the current working tree, return name -> binary."""
    try:
        return build_with(sims, False)
    except LinkError:   # a component may use another one now
        pass
    return build_with(sims, True)


def build_with(sims, wide):
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, 'lock'), 'w') as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        return build_locked(sims, wide)


def build_locked(sims, wide):
    t0 = time.time()
    src = os.path.join(REPO, 'src')
    headers = [p for d in ('src', 'node') for p in tree(os.path.join(REPO, d), ('.hpp', '.h', '.inl', '.ipp', '.tcc'))]
    common = sha(*(p + sha(read(p)) for p in headers), ' '.join(FLAGS))
    standin = tree(os.path.join(HERE, 'standin'), ('.hpp', '.h'))
    ours = sha(*(p + sha(read(p)) for p in standin + tree(os.path.join(HERE, 'sim'), ('.hpp',))))
    inc = ['-I' + src, '-I' + os.path.join(HERE, 'standin'), '-I' + os.path.join(HERE, 'sim')]
    inc_node = ['-I' + REPO, '-I' + os.path.join(REPO, 'node', 'node_stun')]
    odir = os.path.join(BUILD, 'obj')
    os.makedirs(odir, exist_ok=True)
    jobs, result = {}, {}
    need = {}
    known = set(d for v in SIMS.values() for d in v[1])
    there = sorted(d for d in os.listdir(src) if os.path.isdir(os.path.join(src, d)))
    for s in sims:
        harness, dirs = SIMS[s][:2]
        dirs = [*dirs, *(d for d in there if d not in dirs and (wide or d not in known))]
        hs = [os.path.join(HERE, 'sim', h) for h in harness]
        rs = [p for d in dirs for p in tree(os.path.join(REPO, d[1:]) if d[0] == '/' else os.path.join(src, d), ('.cpp', '.cc'))]
        need[s] = (hs, rs)
        for p in hs + rs:
            jobs[mode(s), p] = os.path.join(odir, os.path.basename(p) + '.' + sha(p, read(p), common, ours, *SANITIZE[mode(s)]) + '.o')

    def compile_one(mp):
        m, p = mp
        o = jobs[mp]
        if os.path.exists(o):
            return mp, 0, ''
        tmp = o + '.tmp%d' % os.getpid()
        extra = inc_node if p.startswith(os.path.join(REPO, 'node') + '/') or os.path.basename(p).startswith('node_') else []
        r = subprocess.run(['g++', *FLAGS, *SANITIZE[m], *inc, *extra, '-c', p, '-o', tmp], capture_output=True, text=True)
        if r.returncode == 0:
            os.rename(tmp, o)
        return mp, r.returncode, r.stderr
    # the big ones first
    order = sorted(jobs, key=lambda mp: (not mp[1].startswith(HERE), -os.path.getsize(mp[1])))
    failed = {}
    with cf.ThreadPoolExecutor(NCPU) as ex:
        for p, rc, err in ex.map(compile_one, order):
            if rc:
                failed[p] = err
    for s in sims:
        hs, rs = ([(mode(s), p) for p in ps] for ps in need[s])
        for p in hs:
            if p in failed:
                raise CheckError('harness does not compile against the tree: %s\n%s' % (p[1], failed[p][:4000]))
        objs = [jobs[p] for p in rs if p not in failed]   # some files need the real craftpp
        link = SIMS[s][2] if len(SIMS[s]) > 2 else []
        key = sha(*(jobs[p] for p in hs), *objs, *link)
        exe = os.path.join(BUILD, '%s_sim.%s' % (s, key))
        if not os.path.exists(exe):
            lib = exe + '.a'
            if os.path.exists(lib):
                os.remove(lib)
            if objs:
                subprocess.run(['ar', 'rcs', lib, *objs], check=True)
            r = subprocess.run(['g++', *SANITIZE[mode(s)], *(jobs[p] for p in hs), *([lib] if objs else []),
                                *link, '-lcrypto', '-lpthread', '-o', exe + '.tmp'], capture_output=True, text=True)
            if r.returncode:
                if not wide:
                    raise LinkError()
                raise CheckError('link of %s failed:\n%s\n%s' % (s, r.stderr[-3000:], '\n'.join(e[:1500] for e in failed.values())))
            os.rename(exe + '.tmp', exe)
            if os.path.exists(lib):
                os.remove(lib)
        result[s] = exe
    return result, time.time() - t0


# ------------------------------------------------------------------- processes
def aslr_off():
    try:
        r = subprocess.run(['setarch', os.uname().machine, '-R', 'true'], capture_output=True)
        return ['setarch', os.uname().machine, '-R'] if r.returncode == 0 else []
    except OSError:
        return []


PRE = aslr_off()


def killpg(p):
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except ProcessLookupError:
        pass


def call(args, timeout=HANG_S):
    """Run a simulator once; returns (rc, output) with rc 'hang' on a timeout."""
    p = subprocess.Popen(PRE + args, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=ENV, start_new_session=True)
    try:
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out.decode('utf-8', 'replace')
    except subprocess.TimeoutExpired:
        killpg(p)
        p.communicate()
        return 'hang', ''


def crash_class(rc, out):
    if rc == 'hang':
        return 'hang', 'the run does not terminate'
    kind, msg = 'crash', ''
    m = re.search(r'ERROR: AddressSanitizer: (\S+)', out)
    if m:
        kind, msg = m.group(1), m.group(0)
    if 'WARNING: ThreadSanitizer: data race' in out:
        kind, msg = 'data-race', 'data race'
    m2 = re.search(r'runtime error: (.*)', out)
    if m2:
        kind, msg = 'undefined-behaviour', m2.group(1)
    m3 = re.search(r"terminate called.*\n(.*what\(\):.*)?", out)
    if m3:
        kind, msg = 'exception', m3.group(0).replace('\n', ' ')
    where = ''
    for line in out.split('\n'):
        f = re.search(r'(?:in|#\d+) (.*?) (/\S*?/(?:src|node)/(\S+?)):(\d+)', line)
        if f and '/verif/' not in f.group(2):
            where = f.group(3)
            msg += ' in %s:%s (%s)' % (f.group(3), f.group(4), f.group(1)[:100])
            break
    if not msg:
        msg = 'exit status %s: %s' % (rc, out.strip().split('\n')[-1][:200])
    return ('%s@%s' % (kind, where)).replace(' ', '-'), msg


def outcome(rc, out):
    """(class, message, hash) of a finished 'one' or 'replay'; class None: clean."""
    h = re.search(r'^HASH (\w+) USED (\d+)', out, re.M)
    if rc == 0:
        return None, '', h.group(1) if h else ''
    if rc == 3:
        m = re.search(r'^VIOLATED (\S+) (\S+): (.*)', out, re.M | re.S)
        return m.group(2), m.group(3).strip(), h.group(1)
    if rc in (2, 4, 126, 127):
        raise CheckError('simulator failed: rc=%s %s' % (rc, out[-500:]))
    c, msg = crash_class(rc, out)
    return c, msg, ''


def replay_choices(exe, prop, choices, d, name='c'):
    f = os.path.join(d, '%s.choices' % name)
    with open(f, 'w') as fh:
        fh.write('\n'.join(map(str, choices)) + '\n')
    rc, out = call([exe, 'replay', prop, '--choices', f])
    cls, msg, h = outcome(rc, out)
    m = re.search(r'^HASH \w+ USED (\d+)', out, re.M)
    return cls, msg, h, int(m.group(1)) if m else None


# ----------------------------------------------------------------- minimisation
class Shrinker:
    def __init__(self, exe, prop, cls, choices, d, budget_s, max_tries):
        self.exe, self.prop, self.cls, self.d = exe, prop, cls, d
        self.best = list(choices)
        self.deadline = time.time() + budget_s
        self.tries, self.max_tries = 0, max_tries
        self.pool = cf.ThreadPoolExecutor(NCPU)

    def over(self):
        return time.time() > self.deadline or self.tries >= self.max_tries

    def test(self, idx_cand):
        i, c = idx_cand
        try:
            cls, _, _, used = replay_choices(self.exe, self.prop, c, self.d, 's%d' % i)
        except CheckError:
            return False, None
        return cls == self.cls, used

    def first(self, cands):
        """First candidate (in order) that still fails the same way."""
        batch = []
        for c in cands:
            if len(c) > len(self.best) or (len(c) == len(self.best) and c >= self.best):
                continue
            batch.append(c)
            if len(batch) == NCPU:
                got = self.eval_batch(batch)
                if got:
                    return True
                batch = []
            if self.over():
                return False
        return bool(batch) and self.eval_batch(batch)

    def eval_batch(self, batch):
        res = list(self.pool.map(self.test, enumerate(batch)))
        self.tries += len(batch)
        for c, (ok, used) in zip(batch, res):
            if ok:
                self.best = c[:used] if used is not None else c
                while self.best and self.best[-1] == 0:
                    self.best.pop()
                return True
        return False

    def run(self):
        changed = True
        while changed and not self.over():
            changed = False
            # cut the tail (an exhausted sequence goes on with zeros)
            while not self.over():
                n = len(self.best)
                if not self.first([self.best[:k] for k in sorted({n // 4, n // 2, n * 3 // 4, n * 7 // 8, n - 8, n - 1}) if 0 <= k < n]):
                    break
                changed = True
            # delete and zero blocks
            size = max(1, len(self.best) // 2)
            while size and not self.over():
                i = 0
                while i < len(self.best) and not self.over():
                    n = len(self.best)
                    starts = [s for s in range(i, n, size)][:NCPU]
                    if self.first([self.best[:s] + self.best[s + size:] for s in starts]):
                        changed = True
                        continue
                    if self.first([self.best[:s] + [0] * min(size, n - s) + self.best[s + size:] for s in starts]):
                        changed = True
                    i += size * len(starts)
                size //= 2
            # smaller values
            i = 0
            while i < len(self.best) and not self.over():
                v = self.best[i]
                if v:
                    lo = [x for x in (0, 1, v // 2, v - 1) if x < v]
                    if self.first([self.best[:i] + [x] + self.best[i + 1:] for x in sorted(set(lo))]):
                        changed = True
                        if self.best[i:i + 1] and self.best[i] and self.best[i] < v and self.best[i] > 1:
                            continue
                i += 1
        self.pool.shutdown()
        return self.best


# -------------------------------------------------------------- known findings
def known_findings():
    """KNOWN lines of known-findings.txt: property, class, regular expression."""
    out = []
    try:
        for line in open(os.path.join(HERE, 'known-findings.txt')):
            m = re.match(r'KNOWN property=(\S+) class=(\S+) match=/(.*)/ -- (.*)', line.strip())
            if m:
                out.append(m.groups())
    except FileNotFoundError:
        pass
    return out


# ---------------------------------------------------------------------- workers
class Worker:
    def __init__(self, exe, prop, seed, w, n, count, limit, d, tag, forked, start=None):
        self.exe, self.prop, self.w, self.d = exe, prop, w, d
        self.out = os.path.join(d, 'out.%s.%d' % (tag, w))
        self.mark = os.path.join(d, 'mark.%s.%d' % (tag, w))
        self.log = open(os.path.join(d, 'log.%s.%d' % (tag, w)), 'w+b')
        a = [exe, 'run', prop, '--seed', str(seed), '--from', str(w if start is None else start), '--step', str(n),
             '--count', str(count), '--time', str(limit), '--out', self.out, '--mark', self.mark]
        if forked:
            a.append('--fork')
        self.p = subprocess.Popen(PRE + a, stdout=self.log, stderr=subprocess.STDOUT, env=ENV, start_new_session=True)
        self.last, self.since, self.hung = None, time.time(), False

    def index(self):
        try:
            b = read(self.mark)[:16]
            if len(b) == 16:
                return struct.unpack('<QQ', b)
        except OSError:
            pass
        return None

    def poll(self):
        rc = self.p.poll()
        if rc is not None:
            return rc
        cur = self.index()
        if cur != self.last:
            self.last, self.since = cur, time.time()
        elif time.time() - self.since > HANG_S:
            killpg(self.p)
            self.p.wait()
            self.hung = True
            return 'hang'
        return None


def explore(exe, prop, seed, count, limit, d, tag, forked):
    """All workers; returns (summaries, finding) where finding names the first bad run."""
    n = NCPU
    per = (count + n - 1) // n
    ws = [Worker(exe, prop, seed, w, n, per, limit, d, tag, forked) for w in range(n)]
    finding = None
    pending = set(range(n))
    sums = []
    while pending:
        time.sleep(0.05)
        for w in sorted(pending):
            rc = ws[w].poll()
            if rc is None:
                continue
            pending.discard(w)
            ws[w].log.seek(0)
            text = ws[w].log.read().decode('utf-8', 'replace')
            got = None
            if rc in (0, 3):
                s = json.loads(read(ws[w].out))
                s['_w'] = ws[w].out
                sums.append(s)
                if rc == 3:
                    v = s['violation']
                    got = dict(kind='violation', index=v['index'], cls=v['cls'], msg=v['msg'])
            elif rc == 4:
                got = dict(kind='nondeterminism', index=-1, cls='', msg=text[-300:])
            elif rc == 2:
                raise CheckError('worker failed: %s' % text[-500:])
            else:
                i = ws[w].index()
                if i is None or i[0] == 2**64 - 1:
                    raise CheckError('worker died outside of a run: rc=%s %s' % (rc, text[-1500:]))
                cls, msg = crash_class(rc, text)
                got = dict(kind='crash', index=i[0], cls=cls, msg=msg)
            if got and (finding is None or finding['kind'] == 'nondeterminism'):
                finding = got
                for o in pending:
                    killpg(ws[o].p)
                for o in pending:
                    ws[o].p.wait()
                pending = set()
                break
    for w in ws:
        w.log.close()
    return sums, finding


def merge(sums):
    t = dict(runs=0, relevant_runs=0, abandoned=0, events=0, sim_seconds=0.0, replayed_for_determinism=0,
             faults={}, probes={}, evals={}, abandon_why={}, hashes={})
    traces, states = set(), set()
    for s in sums:
        for k, v in s.items():
            if k not in t:
                continue
            if isinstance(v, dict):
                for a, b in v.items():
                    t[k][a] = b if k == 'hashes' else t[k].get(a, 0) + b
            else:
                t[k] += v
        for name, st in (('.traces', traces), ('.states', states)):
            try:
                b = read(s['_w'] + name)
                st.update(struct.unpack('<%dQ' % (len(b) // 8), b))
            except OSError:
                pass
    t['distinct_traces'], t['distinct_states'] = len(traces), len(states)
    return t


def sample(exe, prop, seed, index, lines=60):
    rc, out = call([exe, 'one', prop, '--seed', str(seed), '--index', str(index), '--text'])
    ls = out.split('\n')
    if len(ls) > lines:
        ls = ls[:lines] + ['... (%d more lines)' % (len(ls) - lines)]
    return {'seed': seed, 'run': index, 'log': ls}


def capture(exe, prop, seed, finding, d):
    """Choices of the bad run, from a fresh process; None if it does not happen there."""
    tee = os.path.join(d, 'tee')
    a = [exe, 'one', prop, '--seed', str(seed), '--index', str(finding['index']), '--tee', tee]
    cls, msg, h = outcome(*call(a))
    cls2, msg2, h2 = outcome(*call(a))
    if cls is None or cls != cls2 or h != h2:
        return None
    return [int(x) for x in read(tee).split()], cls, msg


def decide(prop, sim, exe, seed, tier, count, d):
    """Explore with one simulator. Returns (merged coverage, violation or None, notes)."""
    limit = TIME_CAP[tier]
    notes = []
    sums, finding = explore(exe, prop, seed, count, limit, d, sim, False)
    t = merge(sums)
    got = None
    if finding and finding['kind'] != 'nondeterminism':
        got = capture(exe, prop, seed, finding, d)
    bad = bool(finding) and got is None
    if not finding:
        # a run means the same in a fresh process as in the middle of many runs
        for i in sorted(t['hashes'], key=int)[-3:]:
            rc, out = call([exe, 'one', prop, '--seed', str(seed), '--index', i])
            cls, _, h = outcome(rc, out)
            if h != t['hashes'][i]:
                bad = True
    if bad:
        # the code under test carries state from one run to the next: isolate the runs
        notes.append('state carried between runs: every run repeated in a process of its own')
        sums2, finding = explore(exe, prop, seed, count, limit, d, sim + '.fork', True)
        if finding and finding['kind'] == 'nondeterminism':
            raise CheckError('nondeterminism in isolated runs: %s' % finding['msg'])
        if not finding and not sums2:
            raise CheckError('isolated runs gave no result')
        if finding:
            got = capture(exe, prop, seed, finding, d)
            if got is None:
                raise CheckError('run %s fails (%s: %s) but not when repeated' % (finding['index'], finding['cls'], finding['msg']))
        else:
            # the isolated runs must at least be repeatable
            for i in (0, 1, 2):
                a = [exe, 'one', prop, '--seed', str(seed), '--index', str(i)]
                if outcome(*call(a)) != outcome(*call(a)):
                    raise CheckError('run %d is not repeatable' % i)
        if not t['runs']:
            t = merge(sums2)
    if not finding:
        return t, None, notes
    choices, cls, msg = got
    return t, dict(index=finding['index'], cls=cls, msg=msg, choices=choices), notes


def write_replay(prop, sim, exe, seed, v, tier, d):
    c0, m0, h0, used = replay_choices(exe, prop, v['choices'], d)
    if c0 != v['cls']:
        raise CheckError('recorded choices do not replay: %s instead of %s' % (c0, v['cls']))
    sh = Shrinker(exe, prop, v['cls'], v['choices'], d, 60 if tier == 'quick' else 240, 6000)
    best = sh.run()
    a = replay_choices(exe, prop, best, d)
    b = replay_choices(exe, prop, best, d)
    if a[0] != v['cls'] or a[:3] != b[:3]:
        raise CheckError('minimised run is not repeatable: %s / %s' % (a[:3], b[:3]))
    rdir = os.path.join(HERE, '_build', 'replays')
    os.makedirs(rdir, exist_ok=True)
    f = os.path.join(d, 'final.choices')
    with open(f, 'w') as fh:
        fh.write('\n'.join(map(str, best)) + '\n')
    rc, out = call([exe, 'replay', prop, '--choices', f, '--text'])
    path = os.path.join(rdir, '%s-seed%d-run%d.json' % (prop, seed, v['index']))
    with open(path, 'w') as fh:
        json.dump({'property': prop, 'simulator': sim, 'seed': seed, 'run': v['index'], 'class': v['cls'],
                   'message': a[1], 'hash': a[2], 'choices': best,
                   'original_length': len(v['choices']), 'minimised_length': len(best), 'attempts': sh.tries,
                   'log': out.split('\n')}, fh, indent=1)
    return path, a[1], len(best), sh.tries, out


COMPONENTS = {
    'stun': {
        'real': ['src/stun (client, server, messages, attributes, fingerprint, integrity, transaction identifiers, '
                 'round trip times)', 'src/crypto (HMAC, OpenSSL SHA-1 where no hash fault is injected)', 'src/net', 'src/util',
                 'src/precis', 'src/clock (time points)', 'src/stat'],
        'stub': ['craftpp (dependency that is not in this sandbox): /verif/standin', 'network, NAT, peers and attackers: '
                 'simulated', 'clock: simulated microseconds', 'random source: simulated', 'hash provider: real OpenSSL behind '
                 'an injected failure point', 'applications: simulated pollers'],
    },
    'ice': {'real': ['src/ice', 'src/net', 'src/util (token stream)', 'src/abnf'], 'stub': ['craftpp: /verif/standin', 'signalling channel: simulated', 'writer of candidate lines: independent']},
    'rtp': {'real': ['src/rtp', 'src/util (binary views)', 'src/stat'], 'stub': ['craftpp: /verif/standin', 'network: simulated', 'sender: independent encoder']},
    'node': {
        'real': ['node (bindings of the STUN client and server, messages, candidates, errors, transaction identifiers, SHA-1, MD5)',
                 'src/stun', 'src/crypto with OpenSSL', 'src/ice', 'src/net', 'src/util', 'src/abnf', 'src/precis', 'src/clock', 'src/stat'],
        'stub': ['craftpp and craftnapi (dependencies that are not in this sandbox): /verif/standin', 'JavaScript engine: simulated heap '
                 'of values behind craftnapi', 'clock (std::chrono): simulated', 'std::random_device: simulated', 'OpenSSL EVP calls: real '
                 'behind an injected failure point', 'network and applications: simulated'],
    },
    'thread': {'real': ['everything of the simulators stun, rtp, ice, ilist and the time points and steady clock of clock, on real threads'],
               'stub': ['scheduler: simulated (one thread at a time, hand-over invisible to the race detector)', 'and the stubs of those simulators']},
    'ilist': {'real': ['src/util/util_intrusive_list.hpp'], 'stub': ['owners of elements and lists: simulated']},
    'clock': {'real': ['src/clock'], 'stub': ['standard clocks and the system steady clock: simulated sources']},
}
RULES = {
    'stun': 'one case = one simulated execution of several clients, servers, NATs, peers and attackers, all decided by one PRNG '
            'seed; non-trivial = an oracle of this property was evaluated in a situation its statement speaks about; distinct = '
            'different sequence of event kinds (who acted, what was delivered, lost, duplicated, damaged, answered, decided)',
    'rtp': 'one case = one stream of packets over a faulty network; non-trivial = at least one packet whose outcome the property '
           'fixes was parsed; distinct = different sequence of packet shapes, faults and results',
    'ice': 'one case = one exchange of candidate lines between agents over a faulty signalling channel; non-trivial = at least one '
           'line, priority or text the property speaks about was judged; distinct = different sequence of readings and results',
    'node': 'one case = one execution of JavaScript clients and servers over a faulty network, one history of generated identifiers, of '
            'digests with failures or of parsed texts; non-trivial = an oracle of this property was evaluated; distinct = different '
            'sequence of calls, faults and results',
    'thread': 'one case = two to four simulated worlds or clock readers on threads of their own under one seeded schedule of preemptions; '
              'distinct = different sequence of threads that were run',
    'ilist': 'one case = one history of operations and destructions on several lists; distinct = different sequence of operations',
    'clock': 'one case = one history of advances, readings, jumps and backward steps; distinct = different sequence of operations',
}


def run(prop):
    tier = os.environ.get('VERIF_TIER', 'quick')
    tier = tier if tier in TIME_CAP else 'quick'
    try:
        seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
        seed = 1
    t0 = time.time()
    exes, bt = build([s for s, _, _ in PLAN[prop]])
    d = tempfile.mkdtemp(prefix='sim-%s-' % prop)
    rc = 0
    try:
        cov = {'evaluations': 0, 'distinct_nontrivial': 0, 'rule': '', 'samples': [], 'simulators': {}}
        viol = 0
        for sim, q, th in PLAN[prop]:
            exe = exes[sim]
            count = q if tier == 'quick' else th
            if os.environ.get('VERIF_RUNS'):
                count = int(os.environ['VERIF_RUNS'])
            s0 = time.time()
            t, v, notes = decide(prop, sim, exe, seed, tier, count, d)
            wall = time.time() - s0
            if v:
                for kp, kc, km, kd in known_findings():
                    if kp == prop and kc == v['cls'] and re.search(km, v['msg']):
                        print('KNOWN-FINDING: property=%s %s' % (prop, kd))
                        v = None
                        break
            cov['evaluations'] += t['runs']
            cov['distinct_nontrivial'] += t['distinct_traces']
            cov['rule'] += (' | ' if cov['rule'] else '') + RULES[sim]
            cov['simulators'][sim] = {
                'simulated_runs': t['runs'], 'runs_where_property_mattered': t['relevant_runs'],
                'seed_of_run_i': 'hash(property, VERIF_SEED, i)',
                'runs_per_hour': int(t['runs'] / max(wall, 1e-3) * 3600),
                'simulated_seconds': round(t['sim_seconds'], 3), 'events': t['events'],
                'distinct_interleavings': t['distinct_traces'], 'distinct_states': t['distinct_states'],
                'state_measure': 'hash of the abstract state (phases of transactions, counts, configuration class) after each event',
                'faults_injected': t['faults'], 'rare_conditions_hit': t['probes'],
                'oracle_evaluations': t['evals'].get(prop, 0), 'all_oracle_evaluations': t['evals'],
                'abandoned': t['abandoned'], 'abandoned_because': t['abandon_why'],
                'repeated_in_process_for_determinism': t['replayed_for_determinism'],
                'repeated_in_fresh_process_for_determinism': 3,
                'workers': NCPU, 'wall_s': round(wall, 2), 'notes': notes, 'components': COMPONENTS[sim],
            }
            if not v and t['runs'] == 0:
                raise CheckError('nothing explored')
            if not v:
                for i in (1, 2):
                    cov['samples'].append(dict(sample(exe, prop, seed, i), simulator=sim))
            else:
                viol += 1
                path, msg, n, tries, out = write_replay(prop, sim, exe, seed, v, tier, d)
                cov['samples'].append({'simulator': sim, 'seed': seed, 'run': v['index'], 'violation': v['cls'], 'message': msg,
                                       'choices': n, 'log': out.split('\n')[-60:]})
                print('property %s is broken: %s: %s' % (prop, v['cls'], msg))
                print('seed %d, run %d, minimised to %d choices in %d attempts; last events:' % (seed, v['index'], n, tries))
                print('\n'.join('    ' + x for x in out.strip().split('\n')[-25:]))
                print('VIOLATION property=%s replay=%s' % (prop, path))
                rc = 1
                break
        ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': 'exploration', 'coverage': cov,
              'assumptions': ['sampling: a clean batch is evidence, not proof',
                              'craftpp is replaced by a stand-in with the documented behaviour (/verif/standin)',
                              'built with g++ -O1, AddressSanitizer and UndefinedBehaviorSanitizer, not the shipped flags'],
              'wall_s': round(time.time() - t0, 2), 'build_s': round(bt, 2), 'violations': viol}
        os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
        tmp = os.path.join(HERE, 'evidence', prop + '.json.tmp')
        with open(tmp, 'w') as fh:
            json.dump(ev, fh, indent=1)
        os.rename(tmp, os.path.join(HERE, 'evidence', prop + '.json'))
        if rc == 0:
            print('%s held: %d runs, %d distinct non-trivial, build %.0f s, total %.0f s' %
                  (prop, cov['evaluations'], cov['distinct_nontrivial'], bt, time.time() - t0))
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return rc


def replay(path):
    r = json.load(open(path))
    exes, _ = build([r['simulator']])
    d = tempfile.mkdtemp(prefix='sim-replay-')
    try:
        f = os.path.join(d, 'c.choices')
        with open(f, 'w') as fh:
            fh.write('\n'.join(map(str, r['choices'])) + '\n')
        rc, out = call([exes[r['simulator']], 'replay', r['property'], '--choices', f, '--text'])
        sys.stdout.write(out)
        cls, msg, h = outcome(rc, out)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    if cls is None:
        print('not reproduced: the property holds on this execution')
        return 0
    print('reproduced%s: %s: %s' % (' exactly' if (cls, h) == (r['class'], r['hash']) else '', cls, msg))
    print('VIOLATION property=%s replay=%s' % (r['property'], os.path.abspath(path)))
    return 1


def main():
    a = sys.argv[1:]
    try:
        if a[:1] == ['build']:
            _, t = build(list(SIMS))
            print('built in %.0f s' % t)
            return 0
        if len(a) == 2 and a[0] == 'run' and a[1] in PLAN:
            return run(a[1])
        if len(a) == 2 and a[0] == 'replay':
            return replay(a[1])
        if len(a) in (4, 5) and a[0] == 'one':
            sim = a[4] if len(a) == 5 else PLAN[a[1]][0][0]
            exes, _ = build([sim])
            rc, out = call([exes[sim], 'one', a[1], '--seed', a[2], '--index', a[3], '--text'])
            sys.stdout.write(out)
            return 0 if rc == 0 else 1
        sys.stderr.write(__doc__)
        return 2
    except CheckError as e:
        sys.stderr.write('CHECK ERROR: %s\n' % e)
        return 2


sys.exit(main())
