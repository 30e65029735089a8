"""Frame of every check: tier and seed, harness runs, verdicts, known findings and evidence."""
import concurrent.futures as cf, json, os, re, shutil, subprocess, sys, time
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [VERIF, VERIF + '/lib']
REPO = os.environ.get('VERIF_REPO', '/repo')
JOBS = int(os.environ.get('VERIF_JOBS', str(os.cpu_count() or 4)))
import build as builder


def read_known():
    """property -> {key: text}; lines `finding: property=ID key=KEY :: text` of known_findings.txt"""
    out = {}
    p = f'{VERIF}/known_findings.txt'
    if os.path.exists(p):
        for l in open(p, encoding='utf-8'):
            m = re.match(r'finding: property=(\w+) key=(\S+) :: (.*)', l)
            if m:
                out.setdefault(m.group(1), {})[m.group(2)] = m.group(3).strip()
    return out


class Check:
    def __init__(self, pid):
        self.id = pid
        self.seed = int(os.environ.get('VERIF_SEED', '1'))
        self.tier = os.environ.get('VERIF_TIER', 'quick')
        self.thorough = self.tier == 'thorough'
        self.t0 = time.time()
        self.viol = []              # (key, message, replay)
        self.cov = {'evaluations': 0, 'distinct_nontrivial': 0, 'rule': '', 'samples': []}
        self.observed = {}
        self.inconclusive = []
        self.scratch = f'{VERIF}/.build/run/{pid}'
        shutil.rmtree(self.scratch, ignore_errors=True)
        os.makedirs(self.scratch, exist_ok=True)
        self.replays = f'{VERIF}/evidence/replay'
        os.makedirs(self.replays, exist_ok=True)

    def say(self, s):
        print(f'[{time.time() - self.t0:5.0f} s] {s}', flush=True)

    def exe(self, name, harness=(), cfg='plain', smash=False, core=False, also=()):
        out = f'{VERIF}/.build/bin/{name}.{cfg}'
        builder.build([f'harness/{h}' for h in harness], out, cfg, smash, core=core,
                      also=[f'harness/{h}' for h in also])
        self.say(f'built {name} ({cfg})')
        return out

    def add(self, name, n):
        self.observed[name] = self.observed.get(name, 0) + n

    def violation(self, key, msg, replay=None):
        self.viol.append((re.sub(r'\s+', '_', key), msg, replay or {}))

    def sample(self, s):
        if len(self.cov['samples']) < 12:
            self.cov['samples'].append(s if isinstance(s, (dict, list)) else str(s)[:600])

    # -- harnesses ----------------------------------------------------------------------------
    def _section(self, exe, sec, timeout, env):
        d = f'{self.scratch}/{os.path.basename(exe)}.{sec}'
        os.makedirs(d, exist_ok=True)
        cmd = [exe, sec, str(self.seed), self.tier]
        for k in (1, 3):
            try:
                r = subprocess.run(cmd, cwd=d, env=env, capture_output=True, timeout=timeout * k)
                return sec, cmd, r.returncode, r.stdout.decode('utf-8', 'replace'), r.stderr.decode('utf-8', 'replace')
            except subprocess.TimeoutExpired as e:
                out = (e.stdout or b'').decode('utf-8', 'replace')
        return sec, cmd, 'timeout', out, ''

    def harness(self, exe, timeout=120, env=None, only=None, keep=None):
        """runs every section of a harness, in parallel; keep: the rules this property is about"""
        if self.thorough:
            timeout *= 20
        e = dict(os.environ, LC_ALL='C.UTF-8', ASAN_OPTIONS='abort_on_error=1:detect_leaks=0:allocator_may_return_null=1',
                 UBSAN_OPTIONS='print_stacktrace=1', VERIF_DIR=VERIF, VERIF_REPO=REPO, **(env or {}))
        names = subprocess.run([exe, '--list'], capture_output=True, text=True, env=e).stdout.split()
        if only:
            names = [n for n in names if n in only]
        if not names:
            self.error('the harness lists no sections')
        with cf.ThreadPoolExecutor(JOBS) as ex:
            res = list(ex.map(lambda s: self._section(exe, s, timeout, e), names))
        for sec, cmd, rc, out, err in res:
            ended, crashed = False, None
            for l in out.split('\n'):
                w = l.split('\t')
                if w[0] == 'V' and len(w) >= 3:
                    if w[1] == 'crash':
                        crashed = w[2]
                    elif keep is None or w[1].split('/')[0] in keep or w[1] == 'exception':
                        self.violation(f'{sec}/{w[1]}', w[2], dict(cmd=cmd))
                elif w[0] == 'C' and len(w) >= 3:
                    if w[1] == 'evaluations':
                        self.cov['evaluations'] += int(w[2])
                    self.add(f'{sec}: {w[1]}', int(w[2]))
                elif w[0] == 'D' and len(w) >= 2:
                    self.cov['distinct_nontrivial'] += int(w[1])
                elif w[0] == 'S' and len(w) >= 2:
                    self.sample(f'{sec}: {w[1]}')
                elif w[0] == 'END':
                    ended = True
            if rc == 'timeout':
                self.violation(f'{sec}/hang', f'section {sec} did not come to an end, twice', dict(cmd=cmd))
            elif rc == 3:
                self.error(f'harness usage error in {sec}')
            elif not ended:
                m = re.search(r'(AddressSanitizer|runtime error|Assertion|terminate called).*', err)
                self.violation(f'{sec}/crash', f'section {sec} ended with {rc}: {crashed or ""} '
                               f'{m.group(0)[:300] if m else err[-300:]}', dict(cmd=cmd, stderr=err[-6000:]))
            elif self.observed.get(f'{sec}: evaluations', 0) == 0:
                self.inconclusive.append(f'section {sec} evaluated nothing')
        return res

    # -- verdict ------------------------------------------------------------------------------
    def error(self, msg):
        print(f'ERROR: check {self.id}: {msg}', flush=True)
        sys.exit(2)

    def finish(self, rule, assumptions=(), level='exploration'):
        known = read_known().get(self.id, {})
        new, old = [], {}
        for key, msg, rep in self.viol:
            if key in known:
                old.setdefault(key, []).append(msg)
            else:
                new.append((key, msg, rep))
        self.cov['rule'] = rule
        self.cov['observed'] = self.observed
        if old:
            self.cov['known_findings_seen'] = {k: len(v) for k, v in old.items()}
        ev = dict(property=self.id, tier=self.tier, seed=self.seed, level=level, coverage=self.cov,
                  assumptions=list(assumptions), wall_s=round(time.time() - self.t0, 2), violations=len(new))
        os.makedirs(f'{VERIF}/evidence', exist_ok=True)
        with open(f'{VERIF}/evidence/{self.id}.json', 'w', encoding='utf-8') as f:
            json.dump(ev, f, indent=1, ensure_ascii=False, default=str)
            f.write('\n')
        for k, v in old.items():
            print(f'KNOWN-FINDING: property={self.id} {known[k]} ({len(v)} times, e.g. {v[0][:200]})')
        self.say(f'{self.cov["evaluations"]} evaluations, {self.cov["distinct_nontrivial"]} distinct; '
                 f'{len(new)} violations')
        if new:
            seen = {}
            for key, msg, rep in new:
                seen.setdefault(key, []).append((msg, rep))
            for n, (key, l) in enumerate(list(seen.items())[:20]):
                path = f'{self.replays}/{self.id}-{n}.json'
                with open(path, 'w', encoding='utf-8') as f:
                    json.dump(dict(property=self.id, seed=self.seed, tier=self.tier, key=key,
                                   messages=[m for m, _ in l][:10], replay=l[0][1]), f, indent=1, default=str)
                print(f'  {key}: {l[0][0][:400]}')
                print(f'VIOLATION property={self.id} replay={path}', flush=True)
            sys.exit(1)
        if self.inconclusive:
            self.error('inconclusive: ' + '; '.join(self.inconclusive[:5]))
        shutil.rmtree(self.scratch, ignore_errors=True)
        sys.exit(0)
