"""Runs with some of the reactions switched off, and the monitor that looks for what should not be there."""
import os, random, sys
from collections import Counter
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import concurrent.futures as cf
import trace, work
from work import Work, base, collider

CATEGORIES = ['Elastic', 'NN_to_NR', 'NN_to_DR', 'KN_to_KN', 'KN_to_KDelta', 'Strangeness_exchange', 'NNbar',
              'PiDeuteron_to_NN', 'PiDeuteron_to_pidprime', 'NDeuteron_to_Ndprime']
NUC, PION, KAON = {2212, 2112}, {211, 111, -211}, {321, 311}
DELTA = {1114, 2114, 2214, 2224}
HYP = {3122, 3112, 3212, 3222}
STRINGS = trace.STRINGS + (trace.FAILED,)


def nucleon(p):
    return abs(p) in NUC


def kaon(p):
    return abs(p) in KAON


def nn(l):
    return len(l) == 2 and all(map(nucleon, l)) and l[0] * l[1] > 0


def nnbar(l):
    return len(l) == 2 and all(map(nucleon, l)) and l[0] * l[1] < 0


def baryon(p):
    a = abs(p)
    return a < 10**8 and a // 1000 % 10 != 0 and a // 10 % 10 != 0


def category(a, b):
    """the category of a two-to-two reaction, the same in both directions"""
    for x, y in ((a, b), (b, a)):
        if nn(x):
            if any(p == 1000010020 or p == -1000010020 for p in y):
                return 'PiDeuteron_to_NN'
            if all(map(baryon, y)):
                if any(map(nucleon, y)):
                    return 'NN_to_NR'
                return 'NN_to_DR'
            return None
        if nnbar(x):
            return 'NNbar'
    if any(map(kaon, a)) and any(map(kaon, b)):
        if any(map(nucleon, a)) and any(map(nucleon, b)):
            return 'KN_to_KN'
        if any(abs(p) in DELTA for p in a + b):
            return 'KN_to_KDelta'
    for x, y in ((a, b), (b, a)):
        if any(map(kaon, x)) and any(map(nucleon, x)) and any(abs(p) in PION for p in y) and any(abs(p) in HYP for p in y):
            return 'Strangeness_exchange'
    return None


def hadron_box(r, n):
    L = r.choice([6., 7.])
    c = base(r, 'Box', r.choice([5., 8.]), 0.1, 1)
    c['Modi']['Box'] = dict(Length=L, Temperature=r.choice([0.12, 0.17, .25]), Start_Time=0.0,
                            Initial_Condition='thermal momenta',
                            Init_Multiplicities={211: 10, -211: 10, 111: 10, 2212: 14, 2112: 14, -2212: 4, -2112: 4,
                                                 321: 6, -321: 8, 311: 3, -311: 3, 3122: 4, 3112: 2, 3222: 2, 113: 3,
                                                 2224: 5, 2114: 5, 1114: 3, 313: 3, 3124: 2, '1000010020': 2})
    sw = dict(two_to_one=r.random() < .7, initial=r.random() < .6, force=r.random() < .5, ignore=r.random() < .3,
              strings=r.random() < .25, no_coll=r.random() < .06, cutoff=r.choice([1.9, 1.98, 2.02, 2.1]),
              scale=r.choice([1., 1., .5]), extra=r.choice([0., 0., 3.]),
              elastic=r.choice([-1., -1., 8., 20.]), two=[], multi=[])
    incl = [k for k in CATEGORIES if r.random() < .6]
    nn = r.choice(['resonances', 'no annihilation']) if 'NNbar' in incl else 'no annihilation'
    if r.random() < .15:
        incl = ['Elastic']
        nn = 'no annihilation'
    if r.random() < .2:
        incl = ['All']
        nn = 'resonances'
    sw['two'] = CATEGORIES if incl == ['All'] else incl
    sw['nnbar'] = nn
    ct = dict(Strings=sw['strings'], NNbar_Treatment=nn, Included_2to2=incl, Two_to_One=sw['two_to_one'],
              Decay_Initial_Particles=sw['initial'], Force_Decays_At_End=sw['force'], No_Collisions=sw['no_coll'],
              Elastic_NN_Cutoff_Sqrts=sw['cutoff'], Cross_Section_Scaling=sw['scale'],
              Additional_Elastic_Cross_Section=sw['extra'], Elastic_Cross_Section=sw['elastic'],
              Ignore_Minimum_Decay_Width_For_Decays_At_The_End=sw['ignore'])
    if sw['elastic'] >= 0 or incl == ['Elastic'] or not sw['two_to_one'] or incl != ['All']:
        ct['Total_Cross_Section_Strategy'] = 'BottomUp'
        ct['Pseudoresonance'] = 'None'
    if sw['strings']:
        ct['Strings_with_Probability'] = True
    if r.random() < .15:
        ct.update(Collision_Criterion='Stochastic', Fixed_Min_Cell_Length=2.5, Only_Warn_For_High_Probability=True)
    if sw['no_coll']:  # the other keys are not asked for, and that is an error
        ct = {k: ct[k] for k in ('No_Collisions', 'Force_Decays_At_End', 'Decay_Initial_Particles', 'Two_to_One',
                                 'Ignore_Minimum_Decay_Width_For_Decays_At_The_End')}
    sw['bottom_up'] = ct.get('Total_Cross_Section_Strategy') == 'BottomUp'
    c['Collision_Term'] = ct
    w = Work(f'switches_{n}', c)
    w.sw = sw
    return w


def nuclei(r, n):
    c = collider(r, 'frozen', heavy=r.choice([2, 3, 4]))
    within = r.random() < .3
    c['Modi']['Collider']['Collisions_Within_Nucleus'] = within
    c['Collision_Term'] = dict(Strings=False)
    w = Work(f'switches_{n}', c)
    m = c['Modi']['Collider']
    A = sum(m['Projectile']['Particles'].values())
    w.sw = dict(two_to_one=True, initial=True, force=True, ignore=False, strings=False, no_coll=False, cutoff=1.98,
                scale=1., extra=0., elastic=-1., two=CATEGORIES, nnbar='no annihilation', multi=[], bottom_up=False, within=within, A=A)
    return w


class Watch:
    def __init__(self, w, table):
        self.w, self.sw, self.table = w, w.sw, table
        self.bad, self.n, self.reactions = [], Counter(), set()

    def fail(self, rule, msg):
        if len(self.bad) < 40:
            self.bad.append((rule, msg))

    def run(self, path):
        sw, g = self.sw, self.w.cfg['General']
        end = g['End_Time']
        starts, ends = 0, 0
        last = None
        for b in trace.read_binary(path):
            if b[0] == 'f':
                ends += 1
                continue
            if b[0] == 'p':
                starts += 1
                last = b[3]
                if starts % 2 == 0:
                    self.final(last)
                continue
            info, pin, pout = b[1:]
            ty = info['type']
            self.n['interactions'] += 1
            if ty == trace.WALL:
                continue
            a, o = [p['pdg'] for p in pin], [p['pdg'] for p in pout]
            t = max(p['t'] for p in pout) if pout else 0
            what = f'type {ty}: {a} -> {o} at {t:.6g}'
            self.reactions.add((ty, tuple(sorted(a)), tuple(sorted(o))))
            self.n[f'type {ty}'] += 1
            at_end = abs(t - end) < 1e-9
            if sw['no_coll'] and ty != trace.DECAY:
                self.fail('no_collisions', what)
            if ty == trace.DECAY:
                if not sw['two_to_one']:
                    self.fail('two_to_one', what)
                if not sw['initial'] and pin[0]['ncoll'] == 0 and not (at_end and sw['force']):
                    self.fail('decay_initial', f'an initial particle decays although that is off: {what}')
                if at_end and not sw['force']:
                    self.fail('force_decays', f'a decay at the end although that is off: {what}')
                continue
            if ty in STRINGS and not sw['strings']:
                self.fail('strings', what)
            if ty == 2 and not sw['two_to_one']:
                self.fail('two_to_one', what)
            if ty in (4, 15, 10, 11, 12, 13, 14):
                self.fail('multi', what)
            if ty == 1:
                if 'Elastic' not in sw['two']:
                    self.fail('elastic', what)
                e = [sum(p[k] for p in pin) for k in ('p0', 'px', 'py', 'pz')]
                rs = max(0, e[0]**2 - e[1]**2 - e[2]**2 - e[3]**2)**.5
                # an additional elastic cross section is part of the parametrized total
                if nn(a) and rs < sw['cutoff'] - 1e-6 and (sw['bottom_up'] or sw['extra'] == 0):
                    self.fail('cutoff', f'{what} with {rs:.6g} GeV, below the cut-off of {sw["cutoff"]}')
                if nn(a):
                    self.n['elastic NN'] += 1
                if sw['elastic'] >= 0 and not sw['strings']:
                    f = [1 if p['form_time'] <= t else p['xsecfac'] for p in pin]
                    want = (sw['elastic'] + sw['extra']) * sw['scale']
                    got = info['partial']
                    if all(x == 1 for x in f) and abs(got - want) > 1e-6 * want:
                        self.fail('elastic_cross_section', f'{what} with {got:.9g} mb instead of {want:.9g} mb')
                    self.n['elastic of given cross section'] += 1
            if ty == 3:
                c = category(a, o)
                self.n[f'{c}'] += 1
                if c is None:
                    self.n['other 2 to 2'] += 1
                elif c == 'NNbar':
                    if sw['nnbar'] != 'resonances':
                        self.fail('nnbar', what)
                elif c not in sw['two']:
                    self.fail(c, f'{c} is off: {what}')
            if 'within' in sw and not sw['within']:
                if len(pin) == 2 and all(p['ncoll'] == 0 for p in pin):
                    side = [p['ID'] < sw['A'] for p in pin]
                    self.n['first collisions of nucleons'] += 1
                    if side[0] == side[1]:
                        self.fail('within', f'nucleons of the same nucleus collide: {what}')
        want = g['Nevents'] * g.get('Ensembles', 1)
        if ends != want or starts != 2 * want:
            self.fail('events', f'{starts} lists of particles and {ends} ends of {want} events')

    def final(self, parts):
        sw = self.sw
        for p in parts:
            e = self.table.get(p['pdg']) or self.table.get(-p['pdg'])
            if e is None:
                continue
            stable, modes = e
            if sw['force'] and sw['two_to_one'] and (not stable or (sw['ignore'] and modes and p['pdg'] in (111, 221, 331))):
                self.fail('left_over', f'a {p["pdg"]} is left over at the end')
            self.n['resonances at the end'] += not stable


def table(ptxt, dtxt):
    """pdg -> (stable, has decay modes), from the input files"""
    names, out = {}, {}
    for l in open(ptxt, encoding='utf-8'):
        l = l.split('#')[0].split()
        if len(l) < 5:
            continue
        name, width, codes = l[0], float(l[2]), [int(x) for x in l[4:]]
        names[name] = codes
        for c in codes:
            out[c] = [width < 1e-5, False]
    # a line with a name opens a block, ended by the next one
    cur = None
    for l in open(dtxt, encoding='utf-8'):
        l = l.split('#')[0].split()
        if len(l) == 1:
            cur = l[0]
        elif len(l) > 2 and cur is not None:
            for n, codes in names.items():
                if n == cur:
                    for c in codes:
                        out[c][1] = True
    return {k: tuple(v) for k, v in out.items()}


def _one(job):
    exe, scratch, w, timeout = job
    res = work.Runner(exe, scratch, timeout=timeout).run(w)
    m = None
    if res.rc == 0:
        m = Watch(w, table(*work.LISTS['mid']))
        try:
            m.run(res.out + '/collisions_custom.bin')
        except (trace.BadFile, OSError) as e:
            m.fail('framing', f'{type(e).__name__}: {e}')
    return res, m


def run(check, exe, copies):
    works = []
    for n in range(copies):
        r = random.Random(f'{check.seed}/switches/{n}')
        works.append(nuclei(r, n) if n % 7 == 6 else hadron_box(r, n))
    rn = work.Runner(exe, check.scratch + '/e2e')
    rn.warm({w.plist for w in works})
    check.say('tabulations are there')
    with cf.ProcessPoolExecutor(rn.jobs) as ex:
        out = list(ex.map(_one, [(exe, check.scratch + '/e2e', w, 150) for w in works], chunksize=1))
    seen, off = Counter(), Counter()
    react = set()
    for res, m in out:
        w = res.work
        check.cov['evaluations'] += 1
        if res.rc != 0:
            check.violation('run', f'{w.name}: a run of a valid configuration ended with {res.rc}: {res.log[-400:]}',
                            dict(cmd=res.cmd, config=w.cfg))
            continue
        for k, v in m.n.items():
            seen[k] += v
        for k in CATEGORIES:
            off[k] += k not in w.sw['two']
        for k in ('two_to_one', 'initial', 'force', 'strings'):
            off[k] += not w.sw[k]
        react |= m.reactions
        for rule, msg in m.bad:
            check.violation(rule, f'{w.name}: {msg}', dict(cmd=res.cmd, config=w.cfg, rule=rule))
        check.sample(dict(workload=w.name, switches={k: v for k, v in w.sw.items()}, interactions=m.n['interactions']))
    for k, v in sorted(seen.items()):
        check.add(k, v)
    for k, v in sorted(off.items()):
        check.add(f'runs without {k}', v)
    check.cov['distinct_nontrivial'] += len(react)
    for k in ('NN_to_NR', 'NN_to_DR', 'KN_to_KN', 'KN_to_KDelta', 'Strangeness_exchange', 'NNbar', 'type 1', 'type 2', 'type 5'):
        if not seen[k]:
            check.inconclusive.append(f'no {k} was observed')
