"""End-to-end runs: the smash binary built from the working tree, on randomised workloads, with the
trace monitors of trace.py over its binary collision log."""
import concurrent.futures as cf, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import trace, work

_pole = {}


def pole(plist):
    if plist not in _pole:
        p, d = work.LISTS[plist]
        _pole[plist] = trace.particle_table(p or f'{work.REPO}/input/particles.txt',
                                            d or f'{work.REPO}/input/decaymodes.txt')
    return _pole[plist]


def _one(job):
    exe, scratch, w, timeout, args = job
    r = work.Runner(exe, scratch, timeout=timeout)
    res = r.run(w, args=args)
    if res.rc == 'timeout':
        res = r.run(w, args=args, timeout=3 * timeout)
    m = None
    if res.rc == 0:
        m = trace.Monitor(pole(w.plist), dict(w.opts, events=w.cfg['General'].get('Nevents'),
                                              dt=w.cfg['General'].get('Delta_Time'),
                                              end=w.cfg['General'].get('End_Time')))
        try:
            m.run(res.out + '/collisions_custom.bin')
        except (trace.BadFile, OSError) as e:
            m.fail('framing', f'{type(e).__name__}: {e}')
        m.o['on_start'] = None
    return res, m


def run(check, exe, works, rules, timeout=120, args=()):
    """runs the workloads, reports the monitors' findings of the given rules; returns [(result, monitor)]"""
    rn = work.Runner(exe, check.scratch + '/e2e')
    for r in rn.warm({w.plist for w in works}):
        if r.rc != 0:
            check.violation('run/' + r.work.name, f'a run of a valid configuration ended with {r.rc}: '
                            f'{r.log[-400:]}', dict(cmd=r.cmd, config=r.work.cfg))
    check.say('tabulations are there')
    jobs = [(exe, check.scratch + '/e2e', w, timeout, args) for w in works]
    with cf.ProcessPoolExecutor(rn.jobs) as ex:
        out = list(ex.map(_one, jobs, chunksize=1))
    sigs = set()
    for res, m in out:
        w = res.work
        check.cov['evaluations'] += 1
        check.add('runs', 1)
        if res.rc != 0:
            check.violation(f'run/{getattr(w, "family", w.name)}', f'{w.name}: a run of a valid configuration '
                            f'ended with {res.rc}: {res.log[-500:]}', dict(cmd=res.cmd, config=w.cfg))
            continue
        for k, v in m.n.items():
            check.add(k, v)
        for t, v in m.types.items():
            check.add(f'interactions of type {t}', v)
        sigs |= m.sigs
        for rule, msg in m.bad:
            if rule in rules or rule == 'framing':
                check.violation(f'{rule}/{getattr(w, "family", w.name)}', f'{w.name}: {msg}',
                                dict(cmd=res.cmd, config=w.cfg, rule=rule))
        if m.sigs:
            s = sorted(m.sigs)[len(m.sigs) // 2]
            if len(check.cov['samples']) < 6:
                check.sample(dict(workload=w.name, events=m.n['events'], interactions=m.n['interactions'],
                                  a_reaction=dict(type=s[0], incoming=s[1], outgoing=s[2])))
    check.cov['distinct_nontrivial'] += len(sigs)
    check.add('distinct reactions (type, species in, species out)', len(sigs))
    if not sigs:
        check.inconclusive.append('no interaction was observed')
    return out


def simple(pid, rules, rule_text, families=None, copies=(3, 40), harness=(), assumptions=()):
    """a check that is the monitors' rules over the workload families, and sections of harnesses:
    (name, rules to keep, sections or None)"""
    from check import Check
    c = Check(pid)
    names = families or [f for f in work.families() if f != 'thermalizer']
    exe = c.exe('smash', smash=True, also=[h + '.cc' for h, _, _ in harness])
    c.say(f'{len(names)} workload families')
    run(c, exe, work.make(names, c.seed, copies[1] if c.thorough else copies[0]), rules)
    if c.thorough and families is None:
        run(c, exe, work.make(['thermalizer'], c.seed, 2), rules, timeout=900)
    for h, keep, only in harness:
        c.harness(c.exe(h, [h + '.cc']), keep=keep, only=only)
    c.finish(rule_text, assumptions)
