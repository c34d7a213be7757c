"""Runs monitors, turns what they observed into a verdict.

Verdict protocol of a monitor process (stdout):
  AT n text      case n starts                EV name count     events observed
  DIST cls hash  a distinct class was seen    SAMPLE text       one case written out
  VIOL key | msg oracle says no               DONE n            ran to its end
Sanitizer reports are taken from stderr.  A process that ends without DONE is
a crash (violation if it reproduces), a HANG line is the CPU-time watchdog
(violation if it reproduces).  Anything else (build failure, killed by the
kernel, harness error) is no verdict: exit status 3."""
import os, re, subprocess, sys, json, time, signal, concurrent.futures as cf
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build as B
VERIF = B.VERIF
NCPU = int(os.environ.get('VERIF_JOBS', '8'))

class NoVerdict(Exception):
    pass

SAN_ENV = {
    'asan': dict(ASAN_OPTIONS='halt_on_error=1:abort_on_error=0:exitcode=66:detect_leaks=%d:detect_stack_use_after_return=0:'
                              'allocator_may_return_null=1:strict_string_checks=1:check_initialization_order=0:handle_segv=1',
                 UBSAN_OPTIONS='print_stacktrace=1:halt_on_error=0',
                 LSAN_OPTIONS='suppressions=%s/config/lsan.supp:print_suppressions=0' % VERIF),
    'tsan': dict(TSAN_OPTIONS='halt_on_error=0:exitcode=0:suppressions=%s/config/tsan.supp:second_deadlock_stack=1:history_size=4' % VERIF),
    'plain': {},
}

def env_for(variant, leaks=0, extra=None):
    e = dict(os.environ)
    e.pop('GYOTO_PLUGINS', None)
    e['LC_ALL'] = 'C'
    e['OPENBLAS_NUM_THREADS'] = '1'
    for k, v in SAN_ENV[variant].items():
        e[k] = v % leaks if '%d' in v else v
    e.update(extra or {})
    return e

def gyoto_frames(block):
    """function names of the Gyoto/monitor frames of a stack, innermost first"""
    out = []
    for m in re.finditer(r'^\s*#\d+ (?:0x[0-9a-f]+ in )?(.+?) (/\S+|\(\S+\)|<null>)', block, re.M):
        fn, loc = m.group(1), m.group(2)
        if '/repo/' in loc or 'Gyoto' in fn or '/lib/' in loc and '.C' in loc:
            fn = re.sub(r'\(.*', '', fn)
            fn = re.sub(r'<.*', '', fn)
            out.append(fn)
    return out

def san_reports(variant, err):
    """-> list of (key, text)"""
    reps = []
    if variant == 'asan':
        for m in re.finditer(r'==\d+==ERROR: AddressSanitizer:? (\S+)(.*?)(?=\n==\d+==ABORTING|\Z)', err, re.S):
            fr = gyoto_frames(m.group(2).split('\n\n')[0])
            reps.append(('asan:%s:%s' % (m.group(1), '<-'.join(fr[:2]) or '?'), m.group(0)[:5000]))
        for m in re.finditer(r'^(\S+?):(\d+):\d+: runtime error: (.*?)$((?:\n\s+#\d+.*)*)', err, re.M):
            f, msg = os.path.basename(m.group(1)), m.group(3)
            if '/repo/' not in m.group(1): continue
            msg = re.sub(r"-?\d[\d.e+-]*", 'N', msg)
            msg = re.sub(r'0x[0-9a-f]+|\bNx\w+', 'PTR', msg)
            fr = gyoto_frames(m.group(4))
            reps.append(('ubsan:%s:%s:%s' % (f, fr[0] if fr else '?', msg[:90]), m.group(0)[:3000]))
        for m in re.finditer(r'^(Direct|Indirect) leak of .*?\n(.*?)\n\n', err, re.M | re.S):
            if m.group(1) != 'Direct': continue
            fr = gyoto_frames(m.group(2))
            if fr: reps.append(('leak:%s' % '<-'.join(fr[:2]), m.group(0)[:3000]))
    if variant == 'tsan':
        for m in re.finditer(r'WARNING: ThreadSanitizer: (.*?) \(pid=\d+\)(.*?)\n={10,}', err, re.S):
            fr = gyoto_frames(m.group(2))
            reps.append(('tsan:%s:%s' % (m.group(1), '|'.join(fr[:2]) or '?'), m.group(0)[:6000]))
    return reps

class Job:
    def __init__(self, variant, monitor, shards=8, args=(), leaks=0, env=None, group='', timeout=780, deps=()):
        self.deps = list(deps)
        self.variant, self.monitor, self.shards, self.args = variant, monitor, shards, list(args)
        self.leaks, self.env, self.group, self.timeout = leaks, env, group, timeout

def run_one(job, shard, seed, tier, extra=()):
    exe = os.path.join(B.BUILD, job.variant, job.monitor)
    cmd = [exe, '--seed=%d' % seed, '--tier=' + tier, '--shard=%d/%d' % (shard, job.shards)]
    if job.group: cmd.append('--group=' + job.group)
    cmd += job.args + list(extra)
    t0 = time.time()
    scratch = os.path.join(B.BUILD, 'scratch', '%s-%s-%s-%d' % (job.monitor, job.variant, job.group or 'x', shard))
    os.makedirs(scratch, exist_ok=True)
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=scratch,
                           env=env_for(job.variant, job.leaks, dict(job.env or {}, VERIF_SCRATCH=scratch)),
                           timeout=job.timeout if tier == 'quick' else 14400)
        out, err, rc = p.stdout, p.stderr, p.returncode
    except subprocess.TimeoutExpired as e:
        out, err, rc = e.stdout or b'', e.stderr or b'', 'timeout'
    finally:
        subprocess.run(['rm', '-rf', scratch])
    return cmd, out.decode('utf8', 'replace'), err.decode('utf8', 'replace'), rc, time.time() - t0

class Result:
    def __init__(self):
        self.ev, self.dist, self.samples, self.viol, self.notes = {}, {}, [], [], []
        self.procs = 0
    def add_ev(self, k, n=1): self.ev[k] = self.ev.get(k, 0) + n
    def violation(self, key, msg, cmd=None, detail=''):
        self.viol.append(dict(key=key, msg=msg, cmd=cmd, detail=detail))

def digest(job, cmd, out, err, rc, R):
    """returns an abnormal-ending description or None"""
    at, done = '', False
    for line in out.splitlines():
        w = line.split(' ', 1)
        if w[0] == 'AT': at = w[1]
        elif w[0] == 'EV':
            n, k = w[1].rsplit(' ', 1); R.add_ev(n, int(k))
        elif w[0] == 'DIST':
            c, h = w[1].rsplit(' ', 1); R.dist.setdefault(c, set()).add(h)
        elif w[0] == 'SAMPLE' and len(R.samples) < 8: R.samples.append(w[1][:1500])
        elif w[0] == 'NOTE' and len(R.notes) < 50: R.notes.append(w[1][:300])
        elif w[0] == 'VIOL':
            key, _, msg = w[1].partition(' | ')
            m = re.match(r'case=(\d+)', msg)
            R.violation(key, msg, cmd + (['--case=' + m.group(1)] if m else []))
        elif w[0] == 'DONE': done = True
    for key, txt in san_reports(job.variant, err):
        R.violation(key, 'sanitizer report (last case: %s)' % at, cmd, txt)
    if done: return None
    if rc == 66 and 'AddressSanitizer' in err and san_reports(job.variant, err): return None
    if rc == 'timeout': return ('timeout', at)
    if 'HANG cpu watchdog' in out: return ('hang', at)
    if isinstance(rc, int) and rc < 0 and -rc in (signal.SIGKILL, signal.SIGTERM): return ('killed', at)
    if isinstance(rc, int) and (rc < 0 or rc == 134): return ('crash(signal %d)' % -rc, at)
    return ('ended(%s)' % rc, at)

def run_jobs(jobs, seed, tier, R):
    for v in sorted({j.variant for j in jobs}):
        B.build(v, sorted({t for j in jobs if j.variant == v for t in [j.monitor] + j.deps}) + ['libgyoto-stdplug.so'])
    todo = [(j, s) for j in jobs for s in range(j.shards)]
    with cf.ThreadPoolExecutor(NCPU) as ex:
        futs = {ex.submit(run_one, j, s, seed, tier): (j, s) for j, s in todo}
        for f in cf.as_completed(futs):
            j, s = futs[f]
            cmd, out, err, rc, dt = f.result()
            R.procs += 1
            bad = digest(j, cmd, out, err, rc, R)
            if bad is None: continue
            # abnormal ending: must reproduce before it counts
            R2 = Result()
            cmd, out2, err2, rc2, dt2 = run_one(j, s, seed, tier)
            bad2 = digest(j, cmd, out2, err2, rc2, R2)
            kind = bad[0]
            if bad2 is None and not R2.viol: continue
            if bad2 is None:
                R.viol += R2.viol; continue
            if kind.split('(')[0] == bad2[0].split('(')[0] and kind.split('(')[0] in ('crash', 'hang'):
                what = re.sub(r'^\d+ ', '', bad2[1])
                R.violation('%s:%s' % (kind.split('(')[0], what), '%s in case %s' % (bad2[0], bad2[1]), cmd, (err2 or '')[-3000:])
            else:
                raise NoVerdict('%s shard %d ended %s then %s at case "%s": %s' % (j.monitor, s, bad, bad2, bad2[1], (err2 or '')[-1500:]))

def known_findings():
    p = os.path.join(VERIF, 'known_findings.txt')
    L = []
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r'known: property=(\S+) key=<<(.*?)>> (.*)', line.strip())
            if m: L.append(m.groups())
    return L

def conclude(pid, R, rule, t0, seed, tier, assumptions, level='exploration'):
    known = {(p, k): d for p, k, d in known_findings()}
    fresh, seen = [], {}
    for v in R.viol:
        if (pid, v['key']) in known: seen.setdefault(v['key'], known[(pid, v['key'])])
        else: fresh.append(v)
    cov = dict(evaluations=R.ev.get('cases', 0), distinct_nontrivial=sum(len(s) for s in R.dist.values()), rule=rule,
               samples=R.samples or ['(none recorded)'], processes=R.procs,
               events={k: v for k, v in sorted(R.ev.items())},
               distinct={k: len(v) for k, v in sorted(R.dist.items())})
    if R.notes: cov['notes'] = R.notes
    if seen: cov['known_findings_seen'] = sorted(seen)
    ev = dict(property=pid, tier=tier, seed=seed, level=level, coverage=cov, assumptions=assumptions,
              wall_s=round(time.time() - t0, 2), violations=len(fresh))
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    for k, d in sorted(seen.items()):
        print('KNOWN-FINDING: property=%s %s' % (pid, d))
    if fresh:
        rd = os.path.join(VERIF, 'replay'); os.makedirs(rd, exist_ok=True)
        byk = {}
        for v in fresh: byk.setdefault(v['key'], v)
        for i, (k, v) in enumerate(sorted(byk.items())[:12]):
            p = os.path.join(rd, '%s-%d.json' % (pid, i))
            json.dump(dict(property=pid, **v), open(p, 'w'), indent=1)
            print('VIOLATION property=%s replay=%s' % (pid, p))
            print('   %s :: %s' % (k, v['msg'][:400]))
            if v['detail']: print('   ' + '\n   '.join(v['detail'].splitlines()[:14]))
        return 1
    print('OK %s: %d cases, %d checks, %d distinct, %.0f s' % (pid, cov['evaluations'], R.ev.get('checks', 0), cov['distinct_nontrivial'], ev['wall_s']))
    return 0
