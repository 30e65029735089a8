"""Memory safety of complete runs: valid ones, and ones whose configuration or input files are damaged.

The binary is the released one (without assertions) with the address, leak and undefined-behaviour sanitizers and the
checks of the C++ library.  A damaged input may be refused with a message or run; it may end in the trap for
floating-point errors that SMASH sets up itself, or in the error handler of the GSL.  Everything else is a violation.
"""
import collections, copy, json, math, os, random, re, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import trace, work
from work import Work, base

SAN = re.compile(r'runtime error: (.*)|ERROR: (?:Address|Leak|Undefined)\w*Sanitizer:? (.*)|(Assertion .* failed)')
ENOUGH = ('out of memory', 'exceeds maximum', 'hard rss limit', 'allocation-size-too-big')
ENV = dict(ASAN_OPTIONS='detect_leaks=1:hard_rss_limit_mb=4000:max_allocation_size_mb=2000:allocator_may_return_null=1',
           UBSAN_OPTIONS='print_stacktrace=1')


class Runner(work.Runner):
    def limit(self):
        import resource
        resource.setrlimit(resource.RLIMIT_FSIZE, (1 << 30, 1 << 30))


def leaves(d, path=()):
    for k, v in d.items():
        yield path + (k,), v
        if isinstance(v, dict):
            yield from leaves(v, path + (k,))


class Raw(str):
    pass


def strange(r, v):
    if isinstance(v, bool):
        c = [not v, not v, 'x', 2]
    elif isinstance(v, (int, float)):
        c = [0, -1, -v, v * .5, v * 2, 1e-9, -1e-9, '.nan', '.inf', '-.inf', 1, 2, -2147483648, 4294967296, 'x', [v], {}]
        if r.random() < .6:
            c = [v + 1, v - 1, -v, 0] if isinstance(v, int) else [v * .5, v * 2, v * .01, v * 1.001, v + .1, 0., -v, -.1]
    elif isinstance(v, list):
        c = [[], v[:1], v + v, v[::-1], ['x'], [0] * len(v), v[:-1], 'x', 0]
    elif isinstance(v, str):
        c = ['', 'x', 0, v.lower(), v + 'x', [v], 'None', '.nan']
    elif isinstance(v, dict):
        c = [{}, [], 0, 'x', None]
    else:
        c = ['x', 0, None]
    return r.choice(c)


BIG = ('End_Time', 'Length', 'Radius', 'Testparticles', 'Ensembles', 'Cell_Number', 'Nevents')


def damage_config(r, w):
    w.cfg = copy.deepcopy(w.cfg)
    g = w.cfg['General']
    g['End_Time'] = min(g['End_Time'], 4.)
    g['Nevents'] = 1
    all_ = [x for x in leaves(w.cfg) if x[0][0] != 'Logging' and x[0][-1] not in ('Quantities', 'Nevents', 'Minimum_Nonempty_Ensembles')]
    done = []
    for _ in range(r.choice([1, 1, 2])):
        p, v = r.choice(all_)
        x = strange(r, v)
        if p[-1] in BIG and isinstance(x, (int, float)) and abs(x) > 100:
            x = -1
        d = w.cfg
        for q in p[:-1]:
            d = d.get(q) if isinstance(d, dict) else None
        if not isinstance(d, dict):
            continue
        if r.random() < .15:
            d.pop(p[-1], None)
            x = 'removed'
        else:
            d[p[-1]] = x
        done.append(('.'.join(map(str, p)), x))
    w.damage = done
    return w


def damage_text(r, t):
    """a text with a few of its lines or words spoilt"""
    lines = t.split('\n')
    for _ in range(r.choice([1, 1, 1, 2, 3])):
        i = r.randrange(len(lines))
        k = r.randrange(8)
        w = lines[i].split(' ')
        if k == 0:
            lines[i] = lines[i][:r.randrange(len(lines[i]) + 1)]
        elif k == 1:
            lines.insert(i, lines[r.randrange(len(lines))])
        elif k == 2:
            del lines[i]
        elif k == 3:
            w[r.randrange(len(w))] = r.choice(['nan', 'inf', '-1', '0', '1e308', '1e-320', 'x', '99999999999', '-0', '', 'π', '\0'])
            lines[i] = ' '.join(w)
        elif k == 4:
            j = r.randrange(len(w))
            lines[i] = ' '.join(w[:j] + w[j + 1:])
        elif k == 5:
            lines[i] += r.choice([' ', ' 7', '#', '\r', '\t', ' ' * 5000])
        elif k == 6:
            lines = lines[:i + 1]
        else:
            b = bytearray(lines[i].encode())
            if b:
                b[r.randrange(len(b))] = r.randrange(32, 127)
            lines[i] = b.decode(errors='replace')
        if not lines:
            lines = ['']
    return '\n'.join(lines)


def damaged_lists(r, n):
    """particles.txt and decaymodes.txt"""
    c = base(r, 'Box', 1., .1, 1)
    c['Modi']['Box'] = dict(Length=6., Temperature=.15, Start_Time=0., Initial_Condition='thermal momenta',
                            Init_Multiplicities={'211': 5, '-211': 5, '111': 5, '223': 5, '333': 3, '2212': 5, '2112': 5})
    c['Collision_Term'] = dict(Strings=False, Pseudoresonance='None', NNbar_Treatment='no annihilation')
    files = {x: open(f'{work.VERIF}/workloads/multi/{x}', encoding='utf-8').read() for x in ('particles.txt', 'decaymodes.txt')}
    x = r.choice(sorted(files))
    files[x] = damage_text(r, files[x])
    return Work(f'lists_{n}', c, plist='multi', files=files, damage=x)


def damaged_list(r, n):
    c = base(r, 'List', 3., .1, 1)
    c['Modi']['List'] = dict(File_Directory='@DIR@', Filename='ev')
    c['Collision_Term'] = dict(Strings=False)
    return Work(f'list_{n}', c, plist='mid', files={'ev': damage_text(r, work.make_list(r, 1, 25))}, damage='list')


def damaged_nucleus(r, n):
    """a custom nucleus read from a file"""
    t = ''.join('%.4f %.4f %.4f %d %d\n' % (r.gauss(0, 2), r.gauss(0, 2), r.gauss(0, 2), 0, i % 2) for i in range(24))
    c = base(r, 'Collider', 3., .1, 1)
    nuc = dict(Particles={2212: 6, 2112: 6}, Custom=dict(File_Directory='@DIR@', File_Name='nuc'))
    c['Modi']['Collider'] = dict(Projectile=nuc, Target=dict(Particles={2212: 6, 2112: 6}), E_Kin=1.23)
    c['Collision_Term'] = dict(Strings=False)
    return Work(f'nucleus_{n}', c, plist='mid', files={'nuc': damage_text(r, t)}, damage='nucleus')


def directed(seed):
    """values that random damage would seldom hit"""
    out = []

    def box(name, **k):
        c = base(random.Random(f'{seed}/{name}'), 'Box', 2., .1, 1)
        c['Modi']['Box'] = dict(dict(Length=8., Temperature=.15, Start_Time=0., Initial_Condition='thermal momenta',
                                     Init_Multiplicities={'211': 9, '2212': 9, '-211': 9}), **k)
        c['Collision_Term'] = dict(Strings=False)
        out.append(Work('directed_' + name, c, damage=name))
        return c

    def ions(name, **k):
        c = base(random.Random(f'{seed}/{name}'), 'Collider', 2., .1, 1)
        c['Modi']['Collider'] = dict(dict(Projectile=dict(Particles={2212: 4, 2112: 4}),
                                          Target=dict(Particles={2212: 4, 2112: 4}), E_Kin=1.23), **k)
        c['Collision_Term'] = dict(Strings=False)
        out.append(Work('directed_' + name, c, damage=name))
        return c
    for k, v in (('tiny', 1e-9), ('ok', .37)):
        box('interval_' + k)['Output']['Output_Interval'] = v
        box('delta_' + k)['General']['Delta_Time'] = v
    for n in (-1, -2147483648, -1000, 0):
        box(f'number_{n}', Init_Multiplicities={'211': n, '2212': 9})
        c = base(random.Random(f'{seed}/sphere{n}'), 'Sphere', 2., .1, 1)
        c['Modi']['Sphere'] = dict(Radius=4., Temperature=.15, Start_Time=0., Init_Multiplicities={'211': n, '2212': 9})
        out.append(Work(f'directed_sphere_{n}', c, damage=n))
        ions(f'nucleus_{n}', Projectile=dict(Particles={2212: n, 2112: 4}))
    for L in (-1., 0., -8., 1e-9, .5, 1.):
        box(f'length_{L}', Length=L)
    # small cells
    for k, L in enumerate((-1., -2., -3., -4., -5., -8., -12., -20.)):
        w = work.families()['box_elastic'](random.Random(f'{seed}/small{k}'))
        w.cfg = copy.deepcopy(w.cfg)
        w.cfg['General'].update(End_Time=w.cfg['Modi']['Box'].get('Start_Time', 0.) + 2., Nevents=1)
        w.cfg['Modi']['Box']['Length'] = L
        w.name, w.damage = f'directed_small_{k}', f'small_{L}'
        out.append(w)
    for n in range(4):
        ions(f'spectrum_{n}', Impact=dict(Sample='custom', Values=[0., 1., 2.][:n], Yields=[0., 1., .5][:n]))
    for k in ('E_Tot', 'E_Kin', 'P_Lab', 'Sqrtsnn'):
        for v in (0., .5, .938, 1.8759, 1.877, 1e4):
            w = ions(f'{k}_{v}')['Modi']['Collider']
            del w['E_Kin']
            w[k] = v
    for b in (0., -1., 1e3, 1e-12):
        ions(f'impact_{b}', Impact=dict(Value=b))
        ions(f'impactmax_{b}', Impact=dict(Sample='quadratic', Max=b))
    for n in (0, -1, 2):
        box(f'testparticles_{n}')['General']['Testparticles'] = n
        box(f'ensembles_{n}')['General']['Ensembles'] = n
    return out


def judge(check, res, valid):
    w = res.work
    d = getattr(w, 'damage', None) or w.opts.get('damage')
    replay = dict(cmd=res.cmd, config=w.cfg, damage=d, files=w.files if not valid else None, log=res.log[-3000:])
    check.cov['evaluations'] += 1
    name = getattr(w, 'family', None) or re.sub(r'_?\d+', '', w.name)
    found = []
    for l in res.log.split('\n'):
        m = SAN.search(l)
        if m and not any(x in l for x in ENOUGH):
            found.append(next(x for x in m.groups() if x))
    if found:
        where = re.findall(r'in (smash::[\w:~]+|main)', res.log)
        check.violation(f'sanitizer/{where[0] if where else name}', f'{w.name} (damage: {d}): {found[0][:200]} in {where[:3]}', replay)
        return 'sanitizer'
    if res.rc == 'timeout':
        check.add('runs that did not end in time', 1)
        return 'timeout'
    if any(x in res.log for x in ENOUGH):
        return 'memory limit'
    if valid and res.rc != 0:
        check.violation(f'run/{name}', f'{w.name}: a run of a valid configuration ended with {res.rc}: {res.log[-400:]}', replay)
        return 'failed'
    if res.rc not in (0, 1):
        if res.rc == -6 and ('loating' in res.log or 'GSL error handler' in res.log):
            return 'floating-point trap or GSL error'
        check.violation(f'signal/{name}', f'{w.name} (damage: {d}) ended with {res.rc}: {res.log[-300:]}', replay)
        return 'signal'
    if res.rc == 1:
        if not re.search(r'FATAL|ERROR|rror|FERR', res.log):
            check.violation(f'message/{name}', f'{w.name} (damage: {d}) was refused without a message: {res.log[-300:]}', replay)
        return 'refused'
    # what ran has finite output
    path = res.out + '/collisions_custom.bin'
    if os.path.exists(path):
        n = 0
        try:
            for b in trace.read_binary(path, w.cfg['Output']['Collisions'].get('Quantities', trace.NAMES)):
                for p in (b[3] if b[0] == 'p' else b[2] + b[3] if b[0] == 'i' else ()):
                    n += 1
                    bad = [k for k in ('t', 'x', 'y', 'z', 'p0', 'px', 'py', 'pz', 'mass') if not math.isfinite(p.get(k, 0.))]
                    if bad:
                        check.violation(f'finite/{name}', f'{w.name} (damage: {d}) wrote a particle whose {bad} is not finite: {p}', replay)
                        return 'not finite'
        except (trace.BadFile, KeyError, AttributeError, TypeError):
            pass        # the format is the subject of other checks, and may be damaged as well
        check.add('particles written by sanitized runs', n)
    return 'ran'


def run(check, exe, copies, ndamaged, nfiles):
    rn = Runner(exe, check.scratch + '/e2e', timeout=60, env=ENV)
    dumps = json.dumps
    names = [f for f in work.families() if f != 'thermalizer']
    ws = work.make(names, check.seed, copies)
    for r in rn.warm({'mid', 'dprime'} | {w.plist for w in ws}):
        judge(check, r, True)
    check.say('tabulations are there')
    rn.timeout = 400
    kinds = collections.Counter()
    for res in rn.run_all(ws):
        kinds['valid: ' + judge(check, res, True)] += 1
    check.say(f'{len(ws)} valid runs')
    F = work.families()
    bad = []
    for i in range(ndamaged):
        r = random.Random(f'{check.seed}/damage/{i}')
        w = damage_config(r, F[r.choice(names)](r))
        w.family = w.name
        w.name = f'config_{i}'
        bad.append(w)
    for i in range(nfiles):
        r = random.Random(f'{check.seed}/files/{i}')
        w = (damaged_lists, damaged_list, damaged_nucleus)[i % 3](r, i)
        bad.append(w)
    bad += directed(check.seed)
    rn.timeout = 20
    work.json = type('J', (), dict(dumps=staticmethod(lambda o, **k: re.sub(r'"(-?\.(?:nan|inf))"', r'\1', dumps(o, **k)))))
    try:
        out = rn.run_all(bad)
    finally:
        work.json = json
    for res in out:
        kinds[re.sub(r'_?\d+$', '', res.work.name) + ': ' + judge(check, res, False)] += 1
    check.observed.update(kinds)
    check.cov['distinct_nontrivial'] += len(kinds) + len({str(getattr(w, 'damage', w.name)) for w in bad})
    for w in bad[:6]:
        check.sample(dict(name=w.name, damage=str(getattr(w, 'damage', None) or w.opts.get('damage'))))
