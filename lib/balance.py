"""Matter in equilibrium stays in equilibrium, and every reaction goes as often backward as forward."""
import collections, math, os, random, re, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import trace, work
from work import Work, base

# ---------------------------------------------------------------- populations
FAMILY = {111: 'pi', 211: 'pi', 113: 'rho', 213: 'rho', 311: 'K', 321: 'K', 313: 'K*', 323: 'K*', 2112: 'N', 2212: 'N',
          1114: 'Delta', 2114: 'Delta', 2214: 'Delta', 2224: 'Delta', 3122: 'Lambda', 3112: 'Sigma', 3212: 'Sigma',
          3222: 'Sigma', 3114: 'Sigma*', 3214: 'Sigma*', 3224: 'Sigma*'}


def box(r, n, crit, nev, end):
    T = r.uniform(.14, .16)
    mu = r.uniform(.2, .35)
    c = base(r, 'Box', end, 0.1, nev)
    c['Output'] = dict(Output_Interval=2., Particles=dict(Format=['Oscar2013'], Only_Final='No'))
    c['Modi']['Box'] = dict(Length=10., Temperature=T, Start_Time=0., Initial_Condition='thermal momenta',
                            Use_Thermal_Multiplicities=True, Account_Resonance_Widths=True,
                            Baryon_Chemical_Potential=mu, Strange_Chemical_Potential=0.)
    ct = dict(Strings=False, NNbar_Treatment='no annihilation', Force_Decays_At_End=False, Collision_Criterion=crit,
              Total_Cross_Section_Strategy='BottomUp', Pseudoresonance='None', Use_AQM=False, Elastic_Cross_Section=5.,
              Included_2to2=['Elastic', 'NN_to_NR', 'NN_to_DR', 'KN_to_KN', 'KN_to_KDelta', 'Strangeness_exchange'])
    if crit == 'Stochastic':
        ct.update(Fixed_Min_Cell_Length=2., Only_Warn_For_High_Probability=True)
    c['Collision_Term'] = ct
    return Work(f'box_{crit}_{n}', c, plist='balance', kind=crit)


def census(path):
    """[{family: (number, energy)}] per output time, summed over the events"""
    tot = collections.defaultdict(lambda: collections.defaultdict(lambda: [0, 0.]))
    k = -1
    for l in open(path):
        if l[0] == '#':
            if l.startswith('# event'):
                if ' end ' in l:
                    k = -1
                elif ' out ' in l or ' in ' in l:
                    k += 1
            continue
        f = l.split()
        x = tot[k][FAMILY[abs(int(f[9]))]]
        x[0] += 1
        x[1] += float(f[5]) - float(f[4])
    return [tot[k] for k in sorted(tot)]


def populations(check, runner, nruns, nev, seed):
    works = []
    for kind, n, ev, end in (('Covariant', nruns, nev, 20.), ('Stochastic', max(8, nruns), nev, 20.)):
        for i in range(n):
            works.append(box(random.Random(f'{seed}/{kind}/{i}'), i, kind, ev, end))
    data = collections.defaultdict(list)
    for res in runner.run_all(works):
        if res.rc:
            check.violation('box/run', f'{res.work.name} ended with {res.rc}: {res.log[-300:]}', dict(config=res.work.cfg))
            continue
        c = census(res.out + '/particle_lists.oscar')
        if len(c) < 8:
            check.violation('box/output', f'{res.work.name} wrote {len(c)} particle lists', dict(config=res.work.cfg))
            continue
        late = c[2:]
        for f in set(FAMILY.values()):
            data[res.work.opts['kind'], f].append((c[0][f][0], sum(x[f][0] for x in late) / len(late),
                                                   c[0][f][1], sum(x[f][1] for x in late) / len(late)))
            check.cov['evaluations'] += len(c)
            check.add('particles counted', sum(x[f][0] for x in c))
    for (kind, f), rows in sorted(data.items()):
        def ratio(rs):
            return sum(x[1] for x in rs) / sum(x[0] for x in rs)

        def energy(rs):
            return (sum(x[3] for x in rs) / sum(x[1] for x in rs)) / (sum(x[2] for x in rs) / sum(x[0] for x in rs))
        if sum(x[0] for x in rows) < 200:
            check.add('species with too few particles', 1)
            continue
        tol = .06 if kind == 'Covariant' else .08
        for what, fun, slack in (('number', ratio, tol), ('energy', energy, tol)):
            r = fun(rows)
            k = len(rows)
            jack = [fun(rows[:i] + rows[i + 1:]) for i in range(k)]
            m = sum(jack) / k
            err = math.sqrt((k - 1) / k * sum((x - m)**2 for x in jack))
            check.observed[f'{kind} {f} {what} after/before'] = f'{r:.4f} +- {err:.4f}'
            if abs(r - 1) > slack + 4.5 * err:
                check.violation(f'box/{kind}/{f}/{what}',
                                f'{kind}: the {what} of {f} in an equilibrated box changes by a factor {r:.3f} +- {err:.3f}',
                                dict(rows=rows[:20]))


# ---------------------------------------------------------------- reactions of many particles
M = {211: .138, 111: .138, 221: .548, 223: .783, 331: .958, 333: 1.019, 311: .494, 321: .494, 2212: .938, 2112: .938,
     3122: 1.116, 1000010020: 1.8756, 1000010030: 2.8089, 1000020030: 2.8084, 1010010030: 2.99116}
G = {211: 1, 111: 1, 221: 1, 223: 3, 331: 1, 333: 3, 311: 1, 321: 1, 2212: 2, 2112: 2, 3122: 2, 1000010020: 3,
     1000010030: 2, 1000020030: 2, 1010010030: 2}
W = {223: .02, 331: .02, 333: .02}
LOWEST = {223: .414, 331: .824, 333: .414}
HBARC = .19732698


def log_density(m, T):
    """logarithm of the density (1/fm^3) of a classical gas, one state"""
    n = 800
    pm = math.sqrt(2 * m * T * 30 + (30 * T)**2)
    s = 0.
    for i in range(n):
        p = pm * (i + .5) / n
        s += p * p * math.exp(-(math.sqrt(p * p + m * m) - m) / T)
    return math.log(s * pm / n / (2 * math.pi**2)) - m / T - 3 * math.log(HBARC)


_memo = {}


def log_thermal(a, T):
    if (a, T) not in _memo:
        m = M[a]
        r = log_density(m, T)
        if a in W:            # a Breit-Wigner of constant width, as for all three-body decays
            w = W[a]
            lo, hi, n = math.atan(2 * (LOWEST[a] - m) / w), math.atan(2 * 1.5 / w), 300
            tot = nrm = 0.
            for i in range(n):
                u = lo + (hi - lo) * (i + .5) / n
                x = m + w / 2 * math.tan(u)
                A = x * x / ((x * x - m * m)**2 + x * x * w * w) / math.cos(u)**2
                nrm += A
                tot += A * math.exp(log_density(x, T) - r)
            r += math.log(tot / nrm)
        _memo[a, T] = r + math.log(G[a])
    return _memo[a, T]


def log_weight(side, N, T, V):
    """log of the number of tuples there are, in units of the number there are in equilibrium without chemical potentials"""
    w = 0.
    for p, k in collections.Counter(side).items():
        for i in range(k):
            if N.get(p, 0) <= i:
                return None
            w += math.log(N[p] - i)
        w -= k * (log_thermal(abs(p), T) + math.log(V))
    return w


def P(n):
    return {211: n, -211: n, 111: n}


def gas(r, kind, i, nev):
    react = dict(d='Deuteron_3to2', dbar='Deuteron_3to2', meson='Meson_3to1', A3='A3_Nuclei_4to2', A3bar='A3_Nuclei_4to2',
                 nnbar='NNbar_5to2')[kind]
    T = r.uniform(.14, .17)
    dt = .02
    cell = 2.
    j = lambda n: max(1, n + r.randint(-n // 6, n // 6))
    if kind == 'd':
        N = {**P(j(15)), 2212: j(16), 2112: j(16), 1000010020: 4}
    elif kind == 'dbar':
        N = {**P(j(8)), 2212: j(12), 2112: j(12), 1000010020: 3, -2212: j(12), -2112: j(12), -1000010020: 3}
    elif kind == 'meson':
        N = {**P(j(20)), 223: j(12), 331: j(12), 221: j(20), 333: j(12)}
        dt, cell = .1, 3.
    elif kind == 'A3':
        N = {**P(j(15)), 2212: j(20), 2112: j(20), 1000010030: 2, 1000020030: 2, 3122: j(16), 1010010030: 2}
    elif kind == 'A3bar':
        N = {**P(j(15)), -2212: j(20), -2112: j(20), -1000010030: 2, -1000020030: 2, -3122: j(16), -1010010030: 2}
    else:
        N = {**P(j(24)), 2212: 3, 2112: 3, -2212: 3, -2112: 3}
        T = r.uniform(.18, .21)
    c = base(r, 'Box', dt, dt, nev)
    c['Modi']['Box'] = dict(Length=6., Temperature=T, Start_Time=0., Initial_Condition='thermal momenta',
                            Init_Multiplicities={str(k): v for k, v in N.items()})
    c['Collision_Term'] = dict(Strings=False, NNbar_Treatment='two to five' if kind == 'nnbar' else 'no annihilation',
                               Multi_Particle_Reactions=[react], Force_Decays_At_End=False,
                               Collision_Criterion='Stochastic', Total_Cross_Section_Strategy='BottomUp',
                               Pseudoresonance='None', Use_AQM=False, Elastic_Cross_Section=.1,
                               Included_2to2=['Elastic'], Fixed_Min_Cell_Length=cell,
                               Only_Warn_For_High_Probability=True)
    return Work(f'{kind}_{i}', c, plist='multi', kind=kind, N=N, T=T, V=6.**3)


EVENTS = dict(d=1500, dbar=1100, meson=400, A3=900, A3bar=400, nnbar=1800)
SLACK = dict(d=.12, dbar=.12, meson=.12, A3=.22, A3bar=.22, nnbar=.15)


def reactions(check, runner, nruns, seed):
    works = [gas(random.Random(f'{seed}/{k}/{i}'), k, i, n) for k, n in EVENTS.items() for i in range(nruns)]
    R = collections.defaultdict(lambda: [0, 0., 0.])
    seen = set()
    for res in runner.run_all(works):
        w = res.work
        if res.rc:
            check.violation('gas/run', f'{w.name} ended with {res.rc}: {res.log[-300:]}', dict(config=w.cfg))
            continue
        n = collections.Counter()
        for b in trace.read_binary(res.out + '/collisions_custom.bin'):
            if b[0] == 'i' and len(b[2]) != len(b[3]):
                n[tuple(sorted(p['pdg'] for p in b[2])), tuple(sorted(p['pdg'] for p in b[3]))] += 1
        done = set()
        for a, b in list(n):
            many, few = (a, b) if len(a) > len(b) else (b, a)
            if (many, few) in done:
                continue
            done.add((many, few))
            if (few == (333,)) and len(many) == 2:
                continue        # phi to K K, whose inverse needs kaons
            x, y = log_weight(many, w.opts['N'], w.opts['T'], w.opts['V']), log_weight(few, w.opts['N'], w.opts['T'], w.opts['V'])
            if x is None or y is None:
                continue        # of the products of another reaction in the same event
            r = math.exp(x - y)
            back, forth = n[many, few], n[few, many]
            check.cov['evaluations'] += back + forth
            seen.add((many, few))
            names = [w.opts['kind']]
            names.append(names[0] + ' ' + '+'.join(map(str, many)) + ' <-> ' + '+'.join(map(str, few)))
            names.append(names[0] + ' forming ' + str(max(few, key=abs)))
            for k in names:
                R[k][0] += back
                R[k][1] += forth * r
                R[k][2] += back + forth * r * r
    for k in EVENTS:
        if R[k][0] == 0:
            check.violation('gas/none/' + k, f'{k}: no reactions of many particles at all', {})
    check.cov['distinct_nontrivial'] += len(seen)
    for k, (b, e, v) in sorted(R.items()):
        if e <= 0:
            if b > 60:
                check.violation('gas/' + k, f'{k}: {b} reactions of many particles and none in the other direction', {})
            continue
        s = math.sqrt(v)
        if b + e > 200:
            check.observed[f'{k}: many to few, seen against expected'] = f'{b} against {e:.0f} +- {s:.0f}'
        if abs(b - e) > SLACK[k.split()[0]] * e + 5 * s:
            check.violation('gas/' + k, f'{k}: {b} reactions of many particles to few, the reactions in the other direction '
                            f'ask for {e:.0f} +- {s:.0f}', {})


def run(check, exe, thorough):
    seed = check.seed
    rn = work.Runner(exe, check.scratch + '/e2e', timeout=300 if not thorough else 3000)
    rn.warm({'balance'})
    populations(check, rn, 16, 8 if not thorough else 60, seed)
    reactions(check, rn, 8 if not thorough else 80, seed)
