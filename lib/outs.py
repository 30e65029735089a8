"""End-to-end monitors that need more than one file of a run, or more than one run: the outputs of a run
against each other and against a replay of its interactions (R11), and repetitions of a run (R10)."""
import concurrent.futures as cf, copy, math, os, re, struct, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import trace, work

FEW = ['t', 'x', 'y', 'z', 'mass', 'p0', 'px', 'py', 'pz', 'pdg', 'ID', 'charge', 'ncoll', 'form_time']
OSC99 = ['ID', 'pdg', None, 'px', 'py', 'pz', 'p0', 'mass', 'x', 'y', 'z', 't']


def with_outputs(w):
    """the workload with every output of particles and collisions"""
    w = copy.deepcopy(w)
    o = w.cfg['Output']
    o['Particles'] = dict(Format=['Oscar2013', 'Oscar1999', 'Binary', 'Oscar2013_bin', 'ASCII', 'VTK'],
                          Only_Final='No', Quantities=trace.NAMES)
    o['Collisions'].update(Format=['Oscar2013', 'Oscar1999', 'Binary', 'Oscar2013_bin', 'ASCII'], Extended=True)
    if w.cfg['General'].get('Ensembles', 1) > 1:
        o['Particles']['Format'].remove('Oscar1999')
        o['Collisions']['Format'].remove('Oscar1999')
    return w


def blocks(path, names, ic=False):
    return list(trace.read_binary(path, names, ic))


def text_blocks(path):
    """(column names, [(kind, header words, [rows])]) of an Oscar2013 or ASCII file"""
    cols, out = None, []
    for i, line in enumerate(open(path, encoding='utf-8')):
        line = line.rstrip('\n')
        if i == 0:
            cols = line.split()[2:]
        elif i < 3:
            continue
        elif line.startswith('#'):
            f = line[1:].split()
            if f[0] == 'event' and f[4] in ('in', 'out', 'end'):
                out.append((f[4], f, []))
            elif f[0] == 'interaction':
                out.append(('i', f, []))
            else:
                raise trace.BadFile(f'{path}:{i + 1}: strange comment {line[:80]!r}')
        else:
            out[-1][2].append(line.split())
    return cols, out


def agree(text, v, c):
    """a printed number against the exact one"""
    if isinstance(v, int):
        return text == str(v)
    try:
        x = float(text)
    except ValueError:
        return False
    if math.isnan(v) or math.isinf(v):
        return str(x) == str(v)
    m = re.fullmatch(r'[-+]?\d*\.?(\d*)(?:e([-+]\d+))?', text)
    if not m:
        return False
    digits = len(m.group(1)) - int(m.group(2) or 0)
    return abs(x - v) <= 0.50001 * 10. ** -digits + 1e-15 * abs(v)


class Run:
    def __init__(self, res):
        self.bad, self.n, self.res = [], {}, res

    def fail(self, rule, msg):
        if sum(r == rule for r, _ in self.bad) < 5:
            self.bad.append((rule, msg))

    def count(self, k, n=1):
        self.n[k] = self.n.get(k, 0) + n

    def rows(self, what, rows, cols, parts, names):
        if len(rows) != len(parts):
            return self.fail('formats', f'{what}: {len(rows)} rows for {len(parts)} particles')
        for r, p in zip(rows, parts):
            if len(r) != len(cols):
                return self.fail('formats', f'{what}: row of {len(r)} columns instead of {len(cols)}')
            for c, x in zip(cols, r):
                if c is not None and c in p and not agree(x, p[c], c):
                    return self.fail('formats', f'{what}: {c} is printed as {x} instead of {p[c]!r}')
        self.count('rows compared', len(rows))

    def check(self):
        out, w = self.res.out, self.res.work
        for f in os.listdir(out):
            if f.endswith('.unfinished'):
                self.fail('files', f'{f} was left behind')
        P = blocks(out + '/particles_custom.bin', trace.NAMES)
        C = blocks(out + '/collisions_custom.bin', trace.NAMES)
        self.times(P)
        self.small_binary(P, out + '/particles_oscar2013.bin', trace.OSCAR2013)
        self.small_binary(C, out + '/collisions_oscar2013_extended.bin', trace.EXTENDED)
        for path, B in (('particle_lists.oscar', P), ('particle_lists.dat', P), ('full_event_history.oscar', C),
                        ('full_event_history.dat', C)):
            self.text(path, out + '/' + path, B)
        for path, B, coll in (('particle_lists.oscar1999', P, False), ('full_event_history.oscar1999', C, True)):
            if os.path.exists(out + '/' + path):
                self.oscar1999(path, out + '/' + path, B, coll)
        self.vtk(P)
        self.replay(P, C)

    def small_binary(self, B, path, names):
        S = blocks(path, names)
        if len(S) != len(B):
            return self.fail('formats', f'{path}: {len(S)} blocks instead of {len(B)}')
        for s, b in zip(S, B):
            for x, y in zip(s, b):
                if isinstance(y, list):
                    if len(x) != len(y) or any(p[k] != q[k] and not (p[k] != p[k]) for p, q in zip(x, y) for k in names):
                        return self.fail('formats', f'{path}: a block {s[:2]} differs from the custom one')
                elif x != y:
                    return self.fail('formats', f'{path}: block {s[:3]} instead of {b[:3]}')
        self.count('binary blocks compared', len(B))

    def text(self, name, path, B):
        cols, T = text_blocks(path)
        if len(T) != len(B):
            return self.fail('formats', f'{name}: {len(T)} blocks instead of {len(B)}')
        opened = set()
        for t, b in zip(T, B):
            kind, h, rows = t
            if b[0] == 'p':
                ev, ens, parts = b[1:]
                want = 'out' if (ev, ens) in opened else 'in'
                opened.add((ev, ens))
                if h[:7] != ['event', str(ev), 'ensemble', str(ens), want, str(len(parts))][:7]:
                    self.fail('formats', f'{name}: {h} for block {(ev, ens, len(parts))}')
                self.rows(name, rows, cols, parts, None)
            elif b[0] == 'i':
                info, pin, pout = b[1:]
                if kind != 'i' or h[2] != str(len(pin)) or h[4] != str(len(pout)):
                    self.fail('formats', f'{name}: {h} for an interaction {len(pin)} -> {len(pout)}')
                    continue
                d = dict(zip(h[5::2], h[6::2]))
                for k, v in (('rho', 'rho'), ('weight', 'weight'), ('partial', 'partial'), ('type', 'type')):
                    if k in d and v in info and not agree(d[k], info[v], k):
                        self.fail('formats', f'{name}: {k} of an interaction is {d[k]} instead of {info[v]}')
                self.rows(name, rows, cols, pin + pout, None)
            else:
                ev, ens, imp, empty = b[1:]
                if kind != 'end' or h[:4] != ['event', str(ev), 'ensemble', str(ens)]:
                    self.fail('formats', f'{name}: {h} for the end of event {ev}, ensemble {ens}')
                    continue
                d = dict(zip(h[4::2], h[5::2]))
                if not agree(d.get('impact', '-'), imp, '') or \
                        d.get('scattering_projectile_target') != ('no' if empty else 'yes'):
                    self.fail('formats', f'{name}: {h} for impact parameter {imp} and empty={empty}')

    def oscar1999(self, name, path, B, coll):
        L = [x.rstrip('\n') for x in open(path, encoding='utf-8')]
        k = 0
        while k < len(L) and L[k].startswith('#'):
            k += 1
        for b in B:
            if k >= len(L):
                return self.fail('formats', f'{name}: ends before block {b[:3]}')
            h = L[k].split()
            k += 1
            if b[0] == 'f':
                ev, ens, imp, empty = b[1:]
                if h[:4] != ['0', '0', str(ev), str(ens)] or len(h) != 5 or not agree(h[4], imp, ''):
                    self.fail('formats', f'{name}: {L[k - 1]!r} at the end of event {ev}')
                continue
            if b[0] == 'p':
                parts = b[3]
                n = [int(x) for x in h[:2]]
                ok = sum(n) == len(parts) and 0 in n
            else:
                parts = b[2] + b[3]
                ok = h[:2] == [str(len(b[2])), str(len(b[3]))]
            if not ok:
                return self.fail('formats', f'{name}: header {h} for block {b[:2]} of {len(parts)} particles')
            self.rows(name, [x.split() for x in L[k:k + len(parts)]], OSC99, parts, None)
            k += len(parts)
        if k != len(L):
            self.fail('formats', f'{name}: {len(L) - k} lines too many')

    def vtk(self, P):
        out = self.res.out
        k, last = {}, {}
        seen = set()
        for b in P:
            if b[0] != 'p':
                continue
            i = k.get(b[1:3], 0)
            k[b[1:3]] = i + 1
            f = f'pos_ev{b[1]:05d}_ens{b[2]:05d}_tstep{i:05d}.vtk'
            seen.add(f)
            try:
                s = open(f'{out}/{f}').read().split()
            except OSError:
                # none is written at the end of an event
                last[b[1:3]] = f
                continue
            if b[1:3] in last:
                self.fail('vtk', f'{last[b[1:3]]} is missing')
            n = int(s[s.index('POINTS') + 1])
            if n != len(b[3]):
                self.fail('vtk', f'{f} has {n} points instead of {len(b[3])}')
                continue
            j = s.index('POINTS') + 3
            for p in b[3]:
                for c in 'xyz':
                    if abs(float(s[j]) - p[c]) > 1e-5 * (1 + abs(p[c])):
                        self.fail('vtk', f'{f}: {c} is {s[j]} instead of {p[c]}')
                    j += 1
            self.count('vtk files')
        for f in os.listdir(out):
            if f.startswith('pos_ev') and f not in seen:
                self.fail('vtk', f'{f} is about no output')

    # -- when output is written, and what -------------------------------------------------------------
    def times(self, P):
        w = self.res.work
        g = w.cfg['General']
        nev, nens, end = g.get('Nevents', 1), g.get('Ensembles', 1), g['End_Time']
        it = w.cfg['Output'].get('Output_Interval')
        lst = w.cfg['Output'].get('Output_Times')
        box = w.cfg['Modi'].get('Box', {})
        # blocks of one time step for all ensembles, the final ones with 'f'
        per = {}
        fin = []
        for b in P:
            if b[0] == 'f':
                fin.append(b[1:3])
            else:
                per.setdefault(b[1:3], []).append(b[3])
                if b[1:3] in fin:
                    self.fail('times', f'a block of {b[1:3]} after its end')
        want = [(e, n) for e in range(nev) for n in range(nens)]
        if fin != want:
            self.fail('times', f'ends of events: {fin}, expected {want}')
        for key, bl in per.items():
            ts = []
            for ps in bl:
                t = {p['t'] for p in ps}
                if len(t) > 1 and max(t) - min(t) > 1e-9 * (1 + abs(max(t))) and len(ts) > 0 and not w.opts.get('fluid'):
                    self.fail('times', f'{key}: particles of several times in one block: {sorted(t)[:3]}')
                ts.append(max(t) if t else None)
            t0 = ts[0]
            if t0 is None:
                continue
            if lst is not None:
                exp = [x for x in sorted(set(lst)) if t0 + 1e-9 < x < end - 1e-6]
            else:
                s = math.floor(t0 / it + 1e-9) * it
                exp = [s + k * it for k in range(1, int((end - s) / it) + 2) if t0 + 1e-6 < s + k * it]
                exp = [x for x in exp if x < end - 1e-4]
            if box.get('Equilibration_Time') is not None:
                exp = [x for x in exp if x >= box['Equilibration_Time'] - 1e-6]
            exp.append(end)
            got = [t for t in ts[1:]]
            # the clock counts in steps of 1e-6 fm, so that it may tick just before the end, too
            if len(got) == len(exp) + 1 and got[-2] is not None and abs(got[-2] - end) < 1e-4:
                got.pop(-2)
            if len(got) != len(exp) or any(g is not None and abs(g - e) > 2e-6 * (2 + k) for k, (g, e) in
                                           enumerate(zip(got, exp))):
                self.fail('times', f'{key}: outputs at {[t0] + got}, expected at {[t0] + exp}')
            self.count('output times', len(got))

    def replay(self, P, C):
        """who is there at an output time follows from the interactions before it"""
        w = self.res.work
        if w.cfg['General'].get('Ensembles', 1) > 1 or w.opts.get('fluid') or w.plist == 'full':
            return
        still = not (w.opts.get('potentials') or w.opts.get('expansion') or w.opts.get('frozen'))
        L = w.opts.get('box')
        pe, ce = {}, {}
        for b in P:
            if b[0] == 'p':
                pe.setdefault(b[1], []).append(b[3])
        for b in C:
            if b[0] != 'f':
                ce.setdefault(b[1] if b[0] == 'p' else cur, []).append(b)
                if b[0] == 'p':
                    cur = b[1]
        strip = lambda ps: [tuple(repr(p[k]) for k in trace.NAMES) for p in ps]
        for ev, bl in pe.items():
            c = ce.get(ev, [])
            if not c or c[0][0] != 'p' or c[-1][0] != 'p':
                self.fail('agree', f'event {ev}: no start and end block in the collisions')
                continue
            if strip(c[0][3]) != strip(bl[0]):
                self.fail('agree', f'event {ev}: the start blocks of particles and collisions differ')
            if strip(c[-1][3]) != strip(bl[-1]):
                self.fail('agree', f'event {ev}: the end blocks of particles and collisions differ')
            alive = {p['ID']: p for p in c[0][3]}
            ints = c[1:-1]
            k = 0
            for ps in bl[1:-1]:
                if not ps:
                    continue
                t = ps[0]['t']
                tie = False
                while k < len(ints) and ints[k][2][0]['t'] <= t:
                    tie |= abs(ints[k][2][0]['t'] - t) < 1e-6
                    for p in ints[k][2]:
                        alive.pop(p['ID'], None)
                    for p in ints[k][3]:
                        alive[p['ID']] = p
                    k += 1
                tie |= k < len(ints) and abs(ints[k][2][0]['t'] - t) < 1e-6
                if tie:
                    self.count('outputs skipped for ties')
                    continue
                now = {p['ID']: p for p in ps}
                if set(now) != set(alive):
                    self.fail('agree', f'event {ev}: at {t} the particles {sorted(set(now) ^ set(alive))[:5]} '
                              'are in only one of the particle list and the replay of the interactions')
                    continue
                for i, q in now.items():
                    p = alive[i]
                    if any(p[n] != q[n] for n in ('pdg', 'charge', 'baryon_number', 'strangeness', 'ncoll',
                                                  'proc_id_origin', 'proc_type_origin', 'pdg_mother1', 'pdg_mother2')):
                        self.fail('agree', f'event {ev}: at {t} particle {i} is {q["pdg"]} with other properties than '
                                  'after its last interaction')
                    if w.opts.get('potentials') or w.opts.get('expansion'):
                        continue
                    if any(abs(p[n] - q[n]) > 1e-9 * (1 + p['p0']) for n in ('p0', 'px', 'py', 'pz')):
                        self.fail('agree', f'event {ev}: at {t} particle {i} has another momentum than after its last '
                                  'interaction')
                    if not still:
                        continue
                    dt = t - p['t']
                    for x, px in (('x', 'px'), ('y', 'py'), ('z', 'pz')):
                        d = q[x] - p[x] - p[px] / p['p0'] * dt
                        if L:
                            d -= L * round(d / L)
                        if abs(d) > 1e-7 * (1 + abs(q[x]) + abs(t)):
                            self.fail('agree', f'event {ev}: at {t} the {x} of particle {i} is off by {d}')
                self.count('particles compared with the replay', len(now))


def _one(job):
    exe, scratch, w, timeout = job
    r = work.Runner(exe, scratch, timeout=timeout)
    res = r.run(w)
    m = Run(res)
    if res.rc == 0:
        try:
            m.check()
        except (trace.BadFile, OSError, ValueError, IndexError, KeyError) as e:
            m.fail('formats', f'unreadable: {type(e).__name__}: {e}')
    return res, m


def outputs(c, exe, names, copies, timeout=240):
    works = []
    for k, w in enumerate(work.make(names, c.seed, copies)):
        v = with_outputs(w)
        v.name, v.family = w.name, w.family
        if k % 3 == 1 and v.plist:
            import random
            r = random.Random(f'{c.seed}/{w.name}/times')
            v.cfg['Output'].pop('Output_Interval', None)
            e = v.cfg['General']['End_Time']
            v.cfg['Output']['Output_Times'] = sorted({round(r.uniform(0.1, e), 3) for _ in range(4)})
        works.append(v)
    rn = work.Runner(exe, c.scratch + '/outs')
    for r in rn.warm({w.plist for w in works}):
        if r.rc != 0:
            c.violation('run/' + r.work.name, f'a valid run ended with {r.rc}: {r.log[-400:]}', dict(cmd=r.cmd))
    with cf.ProcessPoolExecutor(rn.jobs) as ex:
        out = list(ex.map(_one, [(exe, c.scratch + '/outs', w, timeout) for w in works]))
    for res, m in out:
        c.cov['evaluations'] += 1
        c.add('runs with all outputs', 1)
        if res.rc != 0:
            c.violation(f'run/{res.work.family}', f'{res.work.name}: a valid run ended with {res.rc}: {res.log[-400:]}',
                        dict(cmd=res.cmd, config=res.work.cfg))
        for k, v in m.n.items():
            c.add(k, v)
        for rule, msg in m.bad:
            c.violation(f'{rule}/{res.work.family}', f'{res.work.name}: {msg}', dict(cmd=res.cmd, config=res.work.cfg))
    return out


# -- repetitions ------------------------------------------------------------------------------------------

def events(path):
    """the blocks of each event, without the number of the event"""
    ev, cur = [], []
    for b in trace.read_binary(path):
        if b[0] == 'i':
            cur.append(('i', repr(b[1:])))
        else:
            cur.append((b[0], b[2], repr(b[3:])))
            n = b[1]
        if b[0] == 'f':
            while len(ev) <= n:
                ev.append([])
            ev[n] += cur
            cur = []
    return ev


def _again(job):
    exe, scratch, w, timeout, cold = job
    bad, n = [], {}
    rn = work.Runner(exe, scratch, timeout=timeout)

    def go(v, tag, *args):
        v.name = f'{w.name}_{tag}'
        # fresh memory has other contents in every variant: nothing may depend on them
        rn.env['MALLOC_PERTURB_'] = str('abcdnx'.index(tag) * 50)
        return rn.run(v, args=args)

    a = copy.deepcopy(w)
    a.cfg['Logging'] = dict(default='WARN', Experiment='INFO', Resonances='DEBUG')
    A = go(a, 'a')
    if A.rc != 0:
        return w, [('run', f'ended with {A.rc}: {A.log[-300:]}')], n, A.cmd
    seeds = [int(s) for s in re.findall(r'random number seed: (-?\d+)', A.log)]
    f = A.out + '/collisions_custom.bin'
    one = open(f, 'rb').read()
    ev = events(f)
    n['events'] = len(ev)
    n['interactions'] = sum(b[0] == 'i' for e in ev for b in e)
    if len(seeds) != len(ev):
        bad.append(('seeds', f'{len(seeds)} seeds in the log of {len(ev)} events'))
        return w, bad, n, A.cmd
    if len(set(seeds)) != len(seeds) or min(seeds) < 0:
        bad.append(('seeds', f'the seeds {seeds} of the events are not different and non-negative'))
    if seeds[0] != w.cfg['General']['Randomseed']:
        bad.append(('seeds', f'the first event has seed {seeds[0]} instead of the given one'))
    B = go(copy.deepcopy(w), 'b')
    if B.rc != 0 or open(B.out + '/collisions_custom.bin', 'rb').read() != one:
        bad.append(('repeat', 'repeating the run gave other events'))
    if cold:
        N = go(copy.deepcopy(w), 'n', '-n')
        n['repeated without cached tabulations'] = 1
        if N.rc != 0 or open(N.out + '/collisions_custom.bin', 'rb').read() != one:
            bad.append(('cache', 'the events change without the cached tabulations'))
    c = with_outputs(w)
    c.cfg['Output']['Collisions'] = dict(w.cfg['Output']['Collisions'], Format=['Oscar2013', 'Binary'])
    if w.cfg['General'].get('Ensembles', 1) == 1 and 'Thermodynamics' not in c.cfg['Output']:
        c.cfg['Output']['Thermodynamics'] = dict(Format=['ASCII'], Type='baryon', Quantities=['rho_eckart', 'tmn'],
                                                 Position=[0.1, 0., 0.])
    C = go(c, 'c')
    if C.rc != 0:
        bad.append(('outputs', f'with other outputs the run ended with {C.rc}: {C.log[-300:]}'))
    elif open(C.out + '/collisions_custom.bin', 'rb').read() != one:
        bad.append(('outputs', 'the events change with the outputs'))
    # the maxima of the rejection sampling of masses grow when they prove too small, and stay that way
    before = A.log[:A.log.rindex('random number seed')]
    if 'maximum is being increased' in before:
        n['events not compared as sampling maxima were raised before'] = 1
    elif 'List' not in w.cfg['Modi'] and len(ev) > 1:
        d = copy.deepcopy(w)
        d.cfg['General'].update(Nevents=1, Randomseed=seeds[-1])
        D = go(d, 'd')
        e = events(D.out + '/collisions_custom.bin') if D.rc == 0 else None
        if e is None or e != [ev[-1]]:
            msg = ''
            if e:
                for k, (x, y) in enumerate(zip(e[0], ev[-1])):
                    if x != y:
                        msg = f'; first difference in block {k} of {len(ev[-1])}'
                        break
            bad.append(('alone', f'event {len(ev) - 1} of the run is not reproduced by its seed {seeds[-1]}{msg}'))
        else:
            n['events reproduced from their seeds'] = 1
    # another seed gives another event
    x = copy.deepcopy(w)
    x.cfg['General']['Randomseed'] = seeds[0] + 1
    x.cfg['General']['Nevents'] = 1
    X = go(x, 'x')
    if 'List' not in w.cfg['Modi'] and X.rc == 0 and events(X.out + '/collisions_custom.bin')[0] == ev[0]:
        bad.append(('seeds', 'another seed gives the same event'))
    return w, bad, n, A.cmd


def repetitions(c, exe, names, copies, timeout=240):
    works = work.make(names, c.seed, copies)
    if 'ic_dynamic' in names:  # the lattice for fluidization only grows in long events
        for w in work.make(['ic_dynamic'], f'{c.seed}/long', 9):
            w.cfg['General']['End_Time'] = 50.
            w.cfg['Modi']['Collider']['Initial_Conditions']['Maximum_Time'] = 60.
            w.name += '_long'
            works.append(w)
    for w in works:
        w.cfg['General']['Nevents'] = max(2, min(3, w.cfg['General'].get('Nevents', 1)))
        if 'Output_Times' not in w.cfg['Output'] and w.family == 'listmod':
            w.cfg['General']['Nevents'] = 2
    rn = work.Runner(exe, c.scratch + '/rep')
    for r in rn.warm({w.plist for w in works}):
        if r.rc != 0:
            c.violation('run/' + r.work.name, f'a valid run ended with {r.rc}: {r.log[-400:]}', dict(cmd=r.cmd))
    with cf.ProcessPoolExecutor(rn.jobs) as ex:
        out = list(ex.map(_again, [(exe, c.scratch + '/rep', w, timeout, k % 4 == c.seed % 4) for k, w in enumerate(works)]))
    for w, bad, n, cmd in out:
        c.cov['evaluations'] += 1
        c.cov['distinct_nontrivial'] += n.get('interactions', 0)
        c.add('workloads repeated', 1)
        for k, v in n.items():
            c.add(k, v)
        for rule, msg in bad:
            c.violation(f'{rule}/{w.family}', f'{w.name}: {msg}', dict(cmd=cmd, config=w.cfg))
