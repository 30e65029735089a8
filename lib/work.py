"""Workloads: randomised but valid SMASH configurations, and the code that runs them.

Each family makes a configuration from a random.Random, so that a seed names the whole workload.
A Work carries what the monitors need to know about it (opts).
"""
import concurrent.futures as cf, json, os, random, shutil, subprocess, sys, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import trace

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
LISTS = {
    'mid': (f'{VERIF}/workloads/mid/particles.txt', f'{VERIF}/workloads/mid/decaymodes.txt'),
    'dprime': (f'{VERIF}/workloads/mid_dprime/particles.txt', f'{VERIF}/workloads/mid_dprime/decaymodes.txt'),
    'balance': (f'{VERIF}/workloads/balance/particles.txt', f'{VERIF}/workloads/balance/decaymodes.txt'),
    'multi': (f'{VERIF}/workloads/multi/particles.txt', f'{VERIF}/workloads/multi/decaymodes.txt'),
    'full': (None, None),
}


class Work:
    def __init__(self, name, cfg, plist='mid', files=None, **opts):
        self.name, self.cfg, self.plist, self.files, self.opts = name, cfg, plist, files or {}, opts


def base(rng, modus, end, dt=0.1, nev=1, **gen):
    g = dict(Modus=modus, Delta_Time=dt, End_Time=end, Randomseed=rng.randrange(1, 2**31), Nevents=nev)
    g.update(gen)
    return dict(Logging=dict(default='WARN'), General=g, Collision_Term={}, Modi={},
                Output=dict(Output_Interval=max(dt, end / 3.),
                            Collisions=dict(Format=['Binary'], Print_Start_End=True,
                                            Quantities=trace.NAMES)))


NUCLEI = [({2212: 1}, 1), ({2212: 1, 2112: 1}, 2), ({2212: 4, 2112: 5}, 9), ({2212: 6, 2112: 6}, 12),
          ({2212: 8, 2112: 8}, 16), ({2212: 10, 2112: 10}, 20), ({2212: 13, 2112: 14}, 27),
          ({2212: 20, 2112: 20}, 40)]


def collider(rng, kind='frozen', heavy=None, end=None, **coll):
    a = rng.choice(NUCLEI[2:6]) if heavy is None else NUCLEI[heavy]
    b = rng.choice(NUCLEI[2:6]) if heavy is None else NUCLEI[heavy]
    end = end or rng.choice([15., 20., 25.])
    c = base(rng, 'Collider', end, rng.choice([0.1, 0.2]), 2)
    m = dict(Projectile=dict(Particles=a[0]), Target=dict(Particles=b[0]),
             Impact=dict(Sample='quadratic', Max=2.0))
    if kind in ('frozen', 'on', 'off'):
        m['Fermi_Motion'] = kind
    m['Calculation_Frame'] = rng.choice(['center of velocity', 'center of velocity', 'center of mass',
                                         'fixed target'])
    m['E_Kin'] = rng.choice([0.8, 1.23, 1.8, 3.0])
    c['Modi']['Collider'] = m
    c['Collision_Term'].update(coll)
    return c


def families():
    """name -> function(rng) -> Work"""
    F = {}

    def fam(f):
        F[f.__name__] = f
        return f

    @fam
    def frozen(r):
        return Work('frozen', collider(r, 'frozen'), frozen=True)

    @fam
    def fermi_off(r):
        return Work('fermi_off', collider(r, 'off'))

    @fam
    def within(r):
        c = collider(r, 'off')
        c['Modi']['Collider']['Collisions_Within_Nucleus'] = True
        return Work('within', c)

    @fam
    def timestepless(r):
        c = collider(r, 'off')
        c['General']['Time_Step_Mode'] = 'None'
        return Work('timestepless', c)

    @fam
    def strings(r):
        c = collider(r, 'frozen', Strings=True)
        m = c['Modi']['Collider']
        m['E_Kin'] = r.choice([8., 15., 30.])
        c['General']['End_Time'] = 12.
        return Work('strings', c, frozen=True)

    @fam
    def high_energy(r):
        c = collider(r, 'off', heavy=r.choice([0, 2]), end=15.)
        m = c['Modi']['Collider']
        m.pop('E_Kin')
        m['Calculation_Frame'] = 'center of velocity'
        m['Sqrtsnn'] = r.choice([17.3, 62.4, 200.])
        m['Impact'] = dict(Max=0.)
        c['General']['Nevents'] = 5
        return Work('high_energy', c)

    @fam
    def hn(r):
        """pion, kaon, antiproton and hyperon beams"""
        c = collider(r, 'frozen')
        m = c['Modi']['Collider']
        m['Projectile']['Particles'] = {r.choice([211, -211, 321, -321, -2212, 3122, 111]): 1}
        m['E_Kin'] = r.choice([0.5, 1.0, 2.0])
        m['Impact'] = dict(Max=1.)
        m['Fermi_Motion'] = 'off'
        c['General']['Nevents'] = 8
        if r.random() < .5:
            c['Collision_Term'] = dict(NNbar_Treatment=r.choice(['resonances', 'strings']))
        if c['Collision_Term'].get('NNbar_Treatment') == 'strings':
            c['Collision_Term']['Strings'] = True
        return Work('hn', c, plist='mid')

    @fam
    def pauli(r):
        c = collider(r, 'on', Pauli_Blocking={})
        c['General'].update(Testparticles=r.choice([1, 2]), Ensembles=r.choice([1, 3]))
        return Work('pauli', c, free=True)

    @fam
    def potentials(r):
        c = collider(r, 'on')
        c['General'].update(Nevents=1, Testparticles=2, Ensembles=2, End_Time=10., Delta_Time=0.2,
                            Derivatives_Mode=r.choice(['Covariant Gaussian', 'Finite difference']))
        c['Potentials'] = dict(Skyrme=dict(Skyrme_A=-209.2, Skyrme_B=156.4, Skyrme_Tau=1.35),
                               Symmetry=dict(S_Pot=18.0))
        if r.random() < .5:
            c['Potentials']['Coulomb'] = dict(R_Cut=5.0)
        c['Lattice'] = dict(Automatic=False, Sizes=[20., 20., 20.], Cell_Number=[10, 10, 10], Origin=[-10., -10., -10.],
                            Periodic=False)
        return Work('potentials', c, free=False, potentials=True)

    @fam
    def potentials_vdf(r):
        c = potentials(r).cfg
        c['General'].update(Derivatives_Mode='Finite difference', Ensembles=1, Field_Derivatives_Mode=r.choice(
            ['Chain Rule', 'Direct']), Smearing_Mode='Triangular')
        c['Potentials'] = dict(VDF=dict(Sat_rhoB=0.168, Powers=[2.0, 2.35], Coeffs=[-209.2, 156.5]))
        return Work('potentials_vdf', c, free=False, potentials=True)

    @fam
    def potentials_momentum(r):
        c = potentials(r).cfg
        c['Potentials'] = dict(Skyrme=dict(Skyrme_A=-29.3, Skyrme_B=57.2, Skyrme_Tau=1.76),
                               Momentum_Dependence=dict(C=-63.6, Lambda=2.13))
        return Work('potentials_momentum', c, free=False, potentials=True)

    @fam
    def box(r):
        L = r.choice([8., 10., 12.])
        c = base(r, 'Box', r.choice([10., 15.]), 0.1, 1)
        c['Modi']['Box'] = dict(Length=L, Temperature=r.choice([0.12, 0.15, 0.2]), Start_Time=0.0,
                                Initial_Condition=r.choice(['thermal momenta', 'peaked momenta', 'thermal momenta quantum']),
                                Init_Multiplicities={211: 20, -211: 20, 111: 20, 2212: 8, 2112: 8, -2212: 3,
                                                     321: 5, -321: 5, 3122: 3, 113: 4, 223: 3})
        c['Collision_Term'] = dict(Strings=False, Force_Decays_At_End=r.choice([True, False]),
                                   NNbar_Treatment='resonances', Collision_Criterion=r.choice(['Covariant', 'Geometric']))
        return Work('box', c, box=L)

    @fam
    def box_thermal(r):
        L = r.choice([6., 8.])
        c = base(r, 'Box', 8., 0.1, 1)
        c['Modi']['Box'] = dict(Length=L, Temperature=r.choice([0.12, 0.15]), Start_Time=0.0,
                                Initial_Condition='thermal momenta', Use_Thermal_Multiplicities=True,
                                Account_Resonance_Widths=False, Baryon_Chemical_Potential=r.choice([0., 0.3]))
        c['Collision_Term'] = dict(Strings=False, Force_Decays_At_End=False, NNbar_Treatment='resonances')
        return Work('box_thermal', c, box=L)

    @fam
    def box_elastic(r):
        """small box, many walls: fast particles cross several walls in one step"""
        L = r.choice([5., 6., 8.])
        c = base(r, 'Box', 20., r.choice([0.1, L / 10]), 2, Use_Grid=r.choice([True, False]))
        c['Modi']['Box'] = dict(Length=L, Temperature=r.choice([0.2, 1.0]), Start_Time=r.choice([0., 3.]),
                                Initial_Condition='peaked momenta', Init_Multiplicities={211: 40, -211: 30, 22: 3})
        c['Collision_Term'] = dict(Strings=False, Elastic_Cross_Section=r.choice([1., 5.]), Isotropic=True,
                                   Force_Decays_At_End=False, Maximum_Cross_Section=10.)
        return Work('box_elastic', c, box=L)

    @fam
    def stochastic(r):
        c = base(r, 'Box', 3., 0.05, 1)
        L = 10.
        c['Modi']['Box'] = dict(Length=L, Temperature=0.2, Initial_Condition='thermal momenta', Start_Time=0.,
                                Init_Multiplicities={111: 80, 211: 80, -211: 80, 2212: 20, 2112: 20})
        c['Collision_Term'] = dict(Collision_Criterion='Stochastic', Strings=False, Force_Decays_At_End=False,
                                   Fixed_Min_Cell_Length=2.5, NNbar_Treatment='resonances',
                                   Only_Warn_For_High_Probability=True)
        return Work('stochastic', c, box=L, timestep=0.05)

    @fam
    def multi(r):
        c = base(r, 'Box', 1.5, 0.02, 1)
        L = 6.
        reac = r.choice([['Meson_3to1', 'Deuteron_3to2'], ['NNbar_5to2', 'Meson_3to1'],
                         ['A3_Nuclei_4to2', 'Deuteron_3to2']])
        mul = {2212: 30, 2112: 30, -2212: 10, -2112: 10, 333: 20, 331: 20, 223: 40, 211: 40, -211: 40, 111: 40,
               113: 10}
        if 'A3_Nuclei_4to2' in reac:
            mul = {2212: 60, 2112: 60, 211: 60, 111: 60, -211: 60, 3122: 10, '1000010020': 10}
        c['Modi']['Box'] = dict(Length=L, Temperature=0.2, Initial_Condition='thermal momenta', Start_Time=0.,
                                Init_Multiplicities=mul)
        ct = dict(Collision_Criterion='Stochastic', Strings=False, Force_Decays_At_End=False,
                  Fixed_Min_Cell_Length=2., Multi_Particle_Reactions=reac, Only_Warn_For_High_Probability=True,
                  Included_2to2=['Elastic', 'NN_to_NR', 'NN_to_DR', 'KN_to_KN', 'KN_to_KDelta', 'Strangeness_exchange',
                                 'NNbar', 'PiDeuteron_to_NN', 'PiDeuteron_to_pidprime', 'NDeuteron_to_Ndprime'])
        if 'Deuteron_3to2' in reac:
            ct['Included_2to2'] = ct['Included_2to2'][:7]
        if 'NNbar_5to2' in reac:
            ct['NNbar_Treatment'] = 'two to five'
        else:
            ct['NNbar_Treatment'] = 'no annihilation'
            ct['Included_2to2'] = [x for x in ct['Included_2to2'] if x != 'NNbar']
        c['Collision_Term'] = ct
        return Work('multi', c, box=L, timestep=0.02)

    @fam
    def deuterons(r):
        """deuterons through the d' resonance"""
        c = collider(r, 'frozen', heavy=r.choice([2, 3]))
        return Work('deuterons', c, plist='dprime', frozen=True)

    @fam
    def ensembles(r):
        c = collider(r, 'frozen', heavy=2)
        c['General'].update(Ensembles=r.choice([2, 3, 4]), Testparticles=r.choice([1, 2]))
        return Work('ensembles', c, frozen=True)

    @fam
    def sphere(r):
        c = base(r, 'Sphere', 15., 0.1, 2, Time_Step_Mode=r.choice(['Fixed', 'None']))
        m = dict(Radius=r.choice([3., 4.]), Temperature=0.15, Start_Time=r.choice([0., 2.]),
                 Initial_Condition=r.choice(['thermal momenta', 'thermal momenta quantum', 'IC_ES', 'IC_1M', 'IC_2M',
                                             'IC_Massive']),
                 Init_Multiplicities={211: 15, 111: 15, -211: 15, 2212: 8, 2112: 8, 321: 4, -321: 4, 3122: 2, 2224: 2})
        if m['Initial_Condition'].startswith('IC_'):
            m['Init_Multiplicities'] = {211: 20, -211: 20, 111: 20}
        if r.random() < .4:
            m['Jet'] = dict(Jet_PDG=r.choice([211, 2212]), Jet_Momentum=10.)
        if r.random() < .4:
            m['Add_Radial_Velocity'] = 0.4
        c['Modi']['Sphere'] = m
        c['Collision_Term'] = dict(Strings=r.choice([True, False]), NNbar_Treatment='resonances')
        return Work('sphere', c)

    @fam
    def expansion(r):
        c = base(r, 'Sphere', 8., 0.1, 1, Metric_Type=r.choice(['MasslessFRW', 'MassiveFRW', 'Exponential']),
                 Expansion_Rate=0.1)
        c['Modi']['Sphere'] = dict(Radius=3., Temperature=0.15, Start_Time=0.,
                                   Initial_Condition='thermal momenta', Init_Multiplicities={211: 20, -211: 20, 111: 20, 113: 4})
        c['Collision_Term'] = dict(Strings=False)
        return Work('expansion', c, free=False, expansion=True)

    @fam
    def listmod(r):
        w = Work('listmod', base(r, 'List', 20., 0.1, 2), files={'parts0': make_list(r, 2)})
        w.cfg['Modi']['List'] = dict(File_Directory='@DIR@', File_Prefix='parts', Shift_Id=0)
        w.cfg['Collision_Term'] = dict(Strings=False)
        return w

    @fam
    def weak(r):
        c = base(r, 'Sphere', 8., 0.1, 4)
        c['Modi']['Sphere'] = dict(Radius=3., Temperature=0.15, Start_Time=0., Initial_Condition='thermal momenta',
                                   Init_Multiplicities={3122: 4, 3222: 4, 3112: 4, 221: 5, 3212: 4, 3312: 3, 3322: 3, 3334: 3, 331: 5, 3324: 3, 2224: 4, 113: 5, -3122: 3})
        c['Collision_Term'] = dict(Strings=False, Ignore_Minimum_Decay_Width_For_Decays_At_The_End=True)
        return Work('weak', c, weak=True)

    @fam
    def dileptons(r):
        c = collider(r, 'frozen')
        c['Collision_Term']['Dileptons'] = dict(Decays=True)
        c['Output']['Dileptons'] = dict(Format=['Oscar2013_bin', 'Oscar2013'], Extended=True)
        return Work('dileptons', c, frozen=True)

    @fam
    def photons(r):
        c = base(r, 'Box', 6., 0.1, 1)
        c['Modi']['Box'] = dict(Length=8., Temperature=0.2, Start_Time=0.0, Initial_Condition='thermal momenta',
                                Init_Multiplicities={211: 40, -211: 40, 111: 40, 113: 15, 213: 15, -213: 15})
        c['Collision_Term'] = dict(Strings=False, Force_Decays_At_End=False, Total_Cross_Section_Strategy='BottomUp',
                                   Pseudoresonance='None', Elastic_Cross_Section=30.,
                                   Photons={'2to2_Scatterings': True, 'Bremsstrahlung': True, 'Fractional_Photons': r.choice([1, 5])})
        c['Output']['Photons'] = dict(Format=['Oscar2013_bin', 'Oscar2013'], Extended=True)
        return Work('photons', c, box=8., photons=True)

    @fam
    def ic_tau(r):
        c = collider(r, 'frozen', heavy=r.choice([3, 5]))
        m = c['Modi']['Collider']
        m['Calculation_Frame'] = 'center of velocity'
        m.pop('E_Kin')
        m['Sqrtsnn'] = r.choice([4., 7.7])
        m['Initial_Conditions'] = dict(Type='Constant_Tau')
        if r.random() < .7:
            m['Initial_Conditions']['Proper_Time'] = r.choice([1.5, 3.])
        if r.random() < .4:
            m['Initial_Conditions']['pT_Cut'] = 1.0
            m['Initial_Conditions']['Rapidity_Cut'] = 1.5
        c['General']['End_Time'] = 20.
        c['Output']['Initial_Conditions'] = dict(Format=['Oscar2013_bin', 'Oscar2013', 'For_vHLLE'], Extended=True)
        return Work('ic_tau', c, frozen=True, fluid=True)

    @fam
    def ic_dynamic(r):
        c = collider(r, 'frozen', heavy=r.choice([5, 6]))
        m = c['Modi']['Collider']
        m['Calculation_Frame'] = 'center of velocity'
        m.pop('E_Kin')
        m['Sqrtsnn'] = r.choice([4., 6.])
        m['Initial_Conditions'] = dict(Type='Dynamic', Energy_Density_Threshold=r.choice([0.2, 0.4]), Minimum_Time=0.,
                                       Maximum_Time=30., Fluidization_Cells=20)
        c['General'].update(End_Time=r.choice([12., 12., 50.]))
        c['Output']['Initial_Conditions'] = dict(Format=['Oscar2013_bin', 'Oscar2013'], Extended=True)
        return Work('ic_dynamic', c, frozen=True, fluid=True, ordered=False, until=False)

    @fam
    def thermalizer(r):
        c = base(r, 'Sphere', 8., 0.2, 1, Testparticles=5)
        c['Modi']['Sphere'] = dict(Radius=3., Temperature=0.18, Start_Time=0., Initial_Condition='thermal momenta',
                                   Init_Multiplicities={211: 30, 111: 30, -211: 30, 2212: 10, 2112: 10, 321: 5, -321: 5})
        c['Collision_Term'] = dict(Strings=False)
        c['Forced_Thermalization'] = dict(Lattice_Sizes=[12., 12., 12.], Cell_Number=[6, 6, 6], Critical_Edens=0.2, Start_Time=1.,
                                          Timestep=2.0, Algorithm=r.choice(['biased BF', 'unbiased BF', 'mode sampling']))
        return Work('thermalizer', c)

    @fam
    def deformed(r):
        c = collider(r, r.choice(['frozen', 'on']), heavy=4)
        m = c['Modi']['Collider']
        k = r.choice(['deformed', 'alpha', 'alpha'])
        if k == 'deformed':
            m['Projectile'].update(Deformed=dict(Automatic=False, Beta_2=0.3, Beta_4=0.1, Beta_3=0.1, Gamma=0.4),
                                   Orientation=dict(Theta=0.8, Phi=0.2, Psi=0.5))
        else:
            m['Projectile'].update(Alpha_Clustered=dict(Automatic=True), Orientation=dict(Random_Rotation=True))
        m['Impact'] = dict(Value=1.0, Random_Reaction_Plane=True)
        return Work('deformed', c, frozen=m['Fermi_Motion'] == 'frozen')

    @fam
    def spin(r):
        c = collider(r, 'off', heavy=3, Spin_Interactions='On')
        return Work('spin', c, spin=True)

    @fam
    def xsmods(r):
        """scaled, additional and bottom-up cross sections, lifetime modifier"""
        c = collider(r, 'off', Total_Cross_Section_Strategy=r.choice(['BottomUp', 'TopDown', 'TopDownMeasured']),
                     Cross_Section_Scaling=r.choice([0.5, 1.5]), Additional_Elastic_Cross_Section=r.choice([0., 5.]),
                     Resonance_Lifetime_Modifier=r.choice([0.3, 2.]), Collision_Criterion=r.choice(['Geometric', 'Covariant']),
                     Strings=False)
        if c['Collision_Term']['Total_Cross_Section_Strategy'] == 'BottomUp':
            c['Collision_Term']['Pseudoresonance'] = 'None'
        return Work('xsmods', c)

    @fam
    def decays_only(r):
        c = base(r, 'Sphere', 30., r.choice([0.1, 1.0]), 2, Time_Step_Mode=r.choice(['Fixed', 'None']))
        c['Modi']['Sphere'] = dict(Radius=3., Temperature=0.15, Start_Time=0., Initial_Condition='thermal momenta',
                                   Init_Multiplicities={2224: 10, 12212: 10, 2124: 10, 22212: 10, 113: 10, 223: 10, 333: 10,
                                                        20113: 10, 10223: 10, 313: 10, 3124: 10, 13122: 10, 3214: 10, 3324: 10, -2224: 5,
                                                        331: 5, 9010221: 5, 9000211: 5, -3214: 4, 1114: 5})
        c['Collision_Term'] = dict(No_Collisions=True)
        return Work('decays_only', c)
    return F


def make_list(r, nev, n=40, spread=True, fmt='list'):
    import math
    out = ['#!OSCAR2013 particle_lists t x y z mass p0 px py pz pdg ID charge',
           '# Units: fm fm fm fm GeV GeV GeV GeV GeV none none e']
    kinds = [(211, .138, 1), (-211, .138, -1), (111, .138, 0), (2212, .938, 1), (2112, .938, 0), (321, .494, 1),
             (-321, .494, -1), (113, .776, 0), (2224, 1.232, 2), (3122, 1.116, 0), (-2212, .938, -1)]
    for e in range(nev):
        out.append(f'# event {e} out {n}')
        for i in range(n):
            pdg, m, q = r.choice(kinds)
            p = [r.gauss(0, .4) for _ in range(3)]
            x = [r.uniform(-3, 3) for _ in range(3)]
            t = r.uniform(0, 4) if spread else 0.
            E = math.sqrt(m * m + sum(v * v for v in p))
            out.append(' '.join('%.9g' % v for v in [t] + x + [m] + [E] + p) + f' {pdg} {i} {q}')
        out.append(f'# event {e} end 0 impact   0.000 scattering_projectile_target yes')
    return '\n'.join(out) + '\n'


class Result:
    pass


class Runner:
    """runs SMASH in scratch directories; the resonance tabulations are computed once per particle list"""

    def __init__(self, exe, scratch, jobs=None, timeout=300, env=None):
        self.exe, self.scratch, self.timeout = exe, scratch, timeout
        self.jobs = jobs or int(os.environ.get('VERIF_JOBS', os.cpu_count() or 4))
        self.env = dict(os.environ, LC_ALL='C.UTF-8', **(env or {}))
        os.makedirs(scratch, exist_ok=True)

    def limit(self):
        import resource
        if not self.exe.endswith('.asan'):
            resource.setrlimit(resource.RLIMIT_AS, (3 << 30, 3 << 30))
        resource.setrlimit(resource.RLIMIT_FSIZE, (2 << 30, 2 << 30))

    def warm(self, plists):
        """one short run per list fills its cache of tabulations"""
        def one(p):
            r = random.Random(1)
            c = collider(r, 'off', heavy=3, end=10., NNbar_Treatment='resonances', Strings=False)
            c['Modi']['Collider']['Projectile']['Particles'] = {2212: 6, 2112: 6, 321: 1, -321: 1, -2212: 1, 211: 1}
            return self.run(Work('warm_' + p, c, plist=p))
        with cf.ThreadPoolExecutor(self.jobs) as ex:
            return list(ex.map(one, sorted(plists)))

    def run(self, w, name=None, args=(), timeout=None):
        name = name or w.name
        top = f'{self.scratch}/{w.plist}'
        d = f'{top}/{name}'
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d + '/in')
        for f, text in w.files.items():
            with open(f'{d}/in/{f}', 'w', encoding='utf-8') as fh:
                fh.write(text)
        cfg = json.dumps(w.cfg, indent=1).replace('@DIR@', d + '/in')
        with open(f'{d}/in/config.yaml', 'w', encoding='utf-8') as fh:
            fh.write(cfg)
        p, dm = LISTS[w.plist]
        cmd = [self.exe, '-q', '-i', f'{d}/in/config.yaml', '-o', f'{top}/{name}.out', '-f']
        shutil.rmtree(f'{top}/{name}.out', ignore_errors=True)
        if 'particles.txt' in w.files:
            p, dm = f'{d}/in/particles.txt', f'{d}/in/decaymodes.txt'
        if p:
            cmd += ['-p', p, '-d', dm]
        cmd += list(args)
        res = Result()
        res.work, res.dir, res.out, res.cmd = w, d, f'{top}/{name}.out', cmd
        t0 = time.time()
        try:
            with open(f'{d}/log', 'w') as fh:
                pr = subprocess.run(cmd, stdout=fh, stderr=subprocess.STDOUT, cwd=d, env=self.env,
                                    timeout=timeout or self.timeout, preexec_fn=self.limit)
            res.rc = pr.returncode
        except subprocess.TimeoutExpired:
            res.rc = 'timeout'
        res.wall = time.time() - t0
        try:
            res.log = open(f'{d}/log', errors='replace').read()
        except OSError:
            res.log = ''
        return res

    def run_all(self, works):
        with cf.ThreadPoolExecutor(self.jobs) as ex:
            futs = [ex.submit(self.run, w, w.name) for w in works]
            return [f.result() for f in futs]


def make(names, seed, copies=1):
    """the named families, `copies` variants each; the variant's seed (any text) is a function of all three"""
    F = families()
    out = []
    for n in names:
        for k in range(copies):
            r = random.Random(f'{seed}/{n}/{k}')
            w = F[n](r)
            w.name = f'{n}_{k}'
            w.family = n
            out.append(w)
    return out
