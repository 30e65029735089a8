"""Reader of SMASH's binary output and the trace monitors over it.

The log of an event is: a 'p' block with the initial particles, one 'i' block per interaction, a 'p'
block with the final particles and an 'f' line.  The monitors replay the log against a small model of
the ensemble (id -> last known state) and report every disagreement as (rule, message).
"""
import math, struct
from collections import Counter

# name -> struct code, in the order the workloads ask for
QUANT = [('t', 'd'), ('x', 'd'), ('y', 'd'), ('z', 'd'), ('mass', 'd'), ('p0', 'd'), ('px', 'd'),
         ('py', 'd'), ('pz', 'd'), ('pdg', 'i'), ('ID', 'i'), ('charge', 'i'), ('ncoll', 'i'),
         ('form_time', 'd'), ('xsecfac', 'd'), ('proc_id_origin', 'i'), ('proc_type_origin', 'i'),
         ('time_last_coll', 'd'), ('pdg_mother1', 'i'), ('pdg_mother2', 'i'), ('baryon_number', 'i'),
         ('strangeness', 'i'), ('perturbative_weight', 'd'), ('spin0', 'd'), ('spinx', 'd'),
         ('spiny', 'd'), ('spinz', 'd')]
NAMES = [n for n, _ in QUANT]
INT_QUANT = {n for n, c in QUANT if c == 'i'}
QUANT_LIST = '[' + ', '.join(NAMES) + ']'
EXTENDED = NAMES[:22]
OSCAR2013 = NAMES[:12]

ELASTIC, DECAY, WALL, FLUID, FLUID_KEEP, FREEFORALL, FAILED = 1, 5, 6, 8, 21, 90, 47
STRINGS = (41, 42, 43, 44, 45, 46)
FORM = (2, 3, DECAY)
KEEP_ID = (ELASTIC, WALL, FLUID_KEEP)
TWO_IN = (1, 2, 3, 4, 15, 13, 41, 42, 43, 44, 45, 46, 47, 9)
N_IN = {1: 2, 2: 2, 3: 2, 4: 2, 15: 2, 13: 2, 5: 1, 6: 1, 8: 1, 21: 1, 10: 3, 11: 3, 14: 4, 12: 5,
        9: 2, 41: 2, 42: 2, 43: 2, 44: 2, 45: 2, 46: 2, 47: 2}
N_OUT = {1: 2, 2: 1, 3: 2, 4: 3, 15: 4, 13: 5, 6: 1, 10: 1, 11: 2, 14: 2, 12: 2, 47: 2, 9: 3}


HISTORY = ('form_time', 'proc_id_origin', 'proc_type_origin', 'pdg_mother1', 'pdg_mother2', 'ncoll',
           'time_last_coll')


class BadFile(Exception):
    pass


def quantity_code(q):
    if q in ('pdg', 'ID', 'id', 'charge', 'ncoll', 'proc_id_origin', 'proc_type_origin', 'pdg_mother1',
             'pdg_mother2', 'baryon_number', 'strangeness', '0'):
        return 'i'
    return 'd'


def read_binary(path, names=NAMES, ic=False):
    """yields ('p', event, ensemble, [particles]), ('i', {...}, [in], [out]), ('f', event, ens, b, empty)"""
    data = open(path, 'rb').read()
    fmt = struct.Struct('<' + ''.join(quantity_code(n) for n in names))
    if data[:4] != b'SMSH':
        raise BadFile('magic number missing')
    version, variant, ln = struct.unpack_from('<HHI', data, 4)
    pos = 12 + ln
    want = 0 if list(names) == OSCAR2013 else 1 if list(names) == EXTENDED else 2
    if variant != want:
        raise BadFile(f'format variant is {variant}, expected {want}')

    def particles(n):
        nonlocal pos
        if pos + n * fmt.size > len(data):
            raise BadFile('particle block is longer than the file')
        out = [dict(zip(names, fmt.unpack_from(data, pos + k * fmt.size))) for k in range(n)]
        pos += n * fmt.size
        return out
    try:
        while pos < len(data):
            c = data[pos:pos + 1]
            pos += 1
            if c == b'p':
                if ic:
                    (n,) = struct.unpack_from('<I', data, pos)
                    pos += 4
                    yield ('p', -1, -1, particles(n))
                else:
                    ev, ens, n = struct.unpack_from('<iiI', data, pos)
                    pos += 12
                    yield ('p', ev, ens, particles(n))
            elif c == b'i':
                nin, nout, dens, w, pw, ty = struct.unpack_from('<IIdddI', data, pos)
                pos += 36
                a = particles(nin)
                b = particles(nout)
                yield ('i', dict(density=dens, weight=w, partial=pw, type=ty), a, b)
            elif c == b'f':
                ev, ens, b, e = struct.unpack_from('<iidb', data, pos)
                pos += 17
                yield ('f', ev, ens, b, e)
            else:
                raise BadFile(f'unknown block {c!r} at byte {pos - 1}')
    except struct.error as e:
        raise BadFile(str(e))


def four(p):
    return (p['p0'], p['px'], p['py'], p['pz'])


def flavours(pdg):
    """net (strangeness, charm, bottom, baryon number) from the digits of a PDG code"""
    s = 1 if pdg > 0 else -1
    a = abs(pdg)
    if a >= 1000000000:
        # nucleus 10LZZZAAAI
        nl = a // 10000000 % 10
        A = a // 10 % 1000
        return (-s * nl, 0, 0, s * A)
    q1, q2, q3 = a // 1000 % 10, a // 100 % 10, a // 10 % 10
    if a in (130, 310):
        return (0, 0, 0, 0)
    if a < 100 or q2 == 0 and q3 == 0:
        return (0, 0, 0, 0)
    n = Counter()
    if q1 == 0:
        # the heavier quark is the quark if up-type, the antiquark if down-type
        if q2 == q3:
            return (0, 0, 0, 0)
        sign = 1 if q2 % 2 == 0 else -1
        n[q2] += sign
        n[q3] -= sign
        b = 0
    else:
        for q in (q1, q2, q3):
            n[q] += 1
        b = 1
    return (-s * n[3], s * n[4], -s * n[5], s * b)


class Ens:
    pass


class Monitor:
    """Replays the log of one collisions file.

    opts: box (length or None), potentials, expansion, testparticles, end_time, stable masses ...
    """

    def __init__(self, pole, opts=None):
        self.o = dict(box=None, free=True, conserve=True, weak=False, timestep=None, events=None,
                      ordered=True, fluid=False, spin=False, mass_ok=True, frozen=False, on_start=None,
                      until=True)     # until: nothing happens after the end time, all end at it
        self.o.update(opts or {})
        self.pole = pole            # pdg -> (mass, width)
        self.bad = []               # (rule, message)
        self.n = Counter()          # what was observed
        self.types = Counter()
        self.sigs = set()
        self.impact = []
        self.beams = []

    def fail(self, rule, msg):
        if sum(1 for r, _ in self.bad if r == rule) < 20:
            self.bad.append((rule, msg))
        self.n['violations'] += 1

    # -- rules on a single particle ---------------------------------------------------------------
    def particle(self, p, where):
        self.n['particles checked'] += 1
        for k in ('t', 'x', 'y', 'z', 'mass', 'p0', 'px', 'py', 'pz'):
            if not math.isfinite(p[k]):
                self.fail('shell', f'{where}: {k} of particle {p["ID"]} ({p["pdg"]}) is {p[k]}')
                return
        p2 = p['px'] ** 2 + p['py'] ** 2 + p['pz'] ** 2
        m2 = p['p0'] ** 2 - p2
        if abs(m2 - p['mass'] ** 2) > 1e-7 * (1 + p['p0'] ** 2):
            self.fail('shell', f'{where}: particle {p["ID"]} ({p["pdg"]}) has E^2-p^2={m2} but '
                               f'mass^2={p["mass"] ** 2}')
        if p['p0'] <= 0:
            self.fail('shell', f'{where}: particle {p["ID"]} ({p["pdg"]}) has energy {p["p0"]}')
        e = self.pole.get(p['pdg'])
        if e is None:
            self.fail('shell', f'{where}: PDG code {p["pdg"]} of particle {p["ID"]} is not in the '
                               'particle list')
        elif self.o['mass_ok']:
            m0, w, mmin = e
            if w < 1e-5:
                if abs(p['mass'] - m0) > 1e-3 * max(m0, 1e-2) and not (
                        m0 < 1e-3 and p2 > 0 and abs(m2) < 1e-7 * (1 + p['p0'] ** 2)):
                    self.fail('shell', f'{where}: stable particle {p["ID"]} ({p["pdg"]}) has mass '
                                       f'{p["mass"]} instead of {m0}')
            elif p['mass'] < mmin - 1e-6:
                self.fail('shell', f'{where}: resonance {p["ID"]} ({p["pdg"]}) has mass {p["mass"]} '
                                   f'below its threshold {mmin}')
        f = flavours(p['pdg'])
        if 'strangeness' in p and (p['strangeness'] != f[0] or p['baryon_number'] != f[3]):
            self.fail('qn', f'{where}: PDG {p["pdg"]} written with strangeness {p["strangeness"]}, '
                            f'baryon number {p["baryon_number"]}, expected {f[0]}, {f[3]}')
        if 'xsecfac' in p and not (-1e-12 <= p['xsecfac'] <= 1 + 1e-12):
            self.fail('form', f'{where}: particle {p["ID"]} has cross section factor {p["xsecfac"]}')

    def moved(self, p, q):
        """largest distance of q's position from straight-line motion of p, periodic if in a box"""
        dt = q['t'] - p['t']
        d = 0.
        if self.o['frozen'] and p.get('initial') and p['ncoll'] == 0:
            # frozen Fermi motion: a nucleon that has not collided moves with its nucleus
            if dt > 1e-3:
                v = (q['z'] - p['z']) / dt
                for b in self.beams:
                    if abs(b - v) * dt < 1e-6 * (1 + dt):
                        break
                else:
                    self.beams.append(v)
                    if len(self.beams) > 2:
                        return abs(v - self.beams[0]) * dt
            return max(abs(q['x'] - p['x']), abs(q['y'] - p['y']))
        for x, k in (('x', 'px'), ('y', 'py'), ('z', 'pz')):
            dx = q[x] - (p[x] + p[k] / p['p0'] * dt)
            d = max(d, abs(dx))
        return d

    def same_p(self, p, q):
        tol = 1e-9 * (1 + abs(p['p0']))
        return all(abs(a - b) <= tol for a, b in zip(four(p), four(q)))

    def run(self, path, names=NAMES):
        """event := start block per ensemble, interactions of all ensembles, end block and 'f' per ensemble"""
        evs, phase, ev_no = {}, 'start', None     # ensemble -> Ens
        closed = 0
        for blk in read_binary(path, names):
            kind = blk[0]
            if kind == 'p':
                ev, ens, plist = blk[1:]
                if phase == 'start' and ens in evs and not evs[ens].ended:
                    phase = 'end'
                if phase == 'start' and evs and ens in evs:
                    self.fail('framing', f'event {ev} starts ensemble {ens} twice')
                if phase == 'start':
                    if ev_no is None:
                        ev_no = ev
                        if ev != self.n['full events']:
                            self.fail('framing', f'event {ev} follows {self.n["full events"]} events')
                    if ens != len(evs) or ev != ev_no:
                        self.fail('framing', f'start block labelled {(ev, ens)}, {len(evs)} ensembles so far')
                    evs[ens] = self.start((ev, ens), plist)
                else:
                    e = evs.get(ens)
                    if e is None or e.ended or ev != ev_no:
                        self.fail('framing', f'unexpected end block labelled {(ev, ens)}')
                        continue
                    e.ended = True
                    self.final(e.key, e.state, plist, e.init, e.k)
            elif kind == 'i':
                if not evs or phase == 'end':
                    self.fail('framing', 'an interaction is logged outside of an event')
                    return self
                e = self.pick(evs, blk[2])
                e.k += 1
                e.last_t = self.interaction(e.key, e.k, blk, e.state, e.seen, e.last_t, e.procs)
            elif kind == 'f':
                if blk[1] != ev_no or blk[2] not in evs or not evs[blk[2]].ended:
                    self.fail('framing', f'event {(blk[1], blk[2])} is closed without an end block')
                    continue
                self.impact.append(blk[3])
                self.n['events'] += 1
                closed += 1
                if closed == len(evs):
                    evs, phase, ev_no, closed = {}, 'start', None, 0
                    self.n['full events'] += 1
        if evs:
            self.fail('framing', f'event {ev_no} is not complete')
        if self.o['events'] is not None and self.n['full events'] != self.o['events']:
            self.fail('framing', f'{self.n["full events"]} events in the file, {self.o["events"]} asked for')
        return self

    def start(self, key, plist):
        e = Ens()
        e.key, e.state, e.k, e.procs, e.ended = key, {}, 0, set(), False
        for p in plist:
            if p['ID'] in e.state:
                self.fail('once', f'event {key}: initial id {p["ID"]} occurs twice')
            e.state[p['ID']] = p
            p['initial'] = True
            self.particle(p, f'event {key} start')
        e.seen = set(e.state)
        e.last_t = min((p['t'] for p in plist), default=-math.inf)
        e.init = self.totals(plist)
        self.beams = []
        self.n['initial particles'] += len(plist)
        if self.o['on_start']:
            self.o['on_start'](self, key, plist)
        return e

    def pick(self, evs, inc):
        """the ensemble an interaction belongs to: the one its incoming particles fit best"""
        if len(evs) == 1:
            return next(iter(evs.values()))

        def score(e):
            n, d = 0, 0.
            for p in inc:
                s = e.state.get(p['ID'])
                if s is not None and s['pdg'] == p['pdg']:
                    n += 1 + all(s[h] == p[h] for h in HISTORY)
                    d += sum(abs(u - v) for u, v in zip(four(s), four(p)))
                    dt = p['t'] - s['t']
                    d += sum(abs(p[x] - s[x] - s[k] / s['p0'] * dt) for x, k in
                             (('x', 'px'), ('y', 'py'), ('z', 'pz')))
            return n, -d
        return max(evs.values(), key=score)

    def totals(self, plist):
        e = [math.fsum(p[k] for p in plist) for k in ('p0', 'px', 'py', 'pz')]
        q = [sum(p['charge'] for p in plist)]
        f = [sum(c) for c in zip(*(flavours(p['pdg']) for p in plist))] or [0, 0, 0, 0]
        return e, q + f

    def interaction(self, key, k, blk, state, seen, last_t, procs):
        info, inc, out = blk[1:]
        ty = info['type']
        where = f'event {key} interaction {k} (type {ty})'
        self.n['interactions'] += 1
        self.types[ty] += 1
        self.sigs.add((ty, tuple(sorted(p['pdg'] for p in inc)), tuple(sorted(p['pdg'] for p in out))))
        # arity
        if ty in N_IN and len(inc) != N_IN[ty]:
            self.fail('framing', f'{where}: {len(inc)} incoming particles')
        if ty in N_OUT and len(out) != N_OUT[ty]:
            self.fail('framing', f'{where}: {len(out)} outgoing particles')
        # exactly once
        ids = [p['ID'] for p in inc]
        if len(set(ids)) != len(ids):
            self.fail('once', f'{where}: incoming ids {ids} are not distinct')
        for p in inc:
            s = state.get(p['ID'])
            if s is None:
                self.fail('once', f'{where}: incoming particle {p["ID"]} does not exist '
                                  f'({"was used up earlier" if p["ID"] in seen else "never produced"})')
                continue
            if s['pdg'] != p['pdg'] or s['charge'] != p['charge']:
                self.fail('once', f'{where}: particle {p["ID"]} was {s["pdg"]}, comes in as {p["pdg"]}')
            if self.o['free']:
                if not self.same_p(s, p):
                    self.fail('free', f'{where}: momentum of {p["ID"]} changed from {four(s)} to '
                                      f'{four(p)} between interactions')
                d = self.moved(s, p)
                self.n['free flights'] += 1
                if d > 1e-6 * (1 + abs(p['t'] - s['t'])):
                    self.fail('free', f'{where}: particle {p["ID"]} is {d} fm off its straight line '
                                      f'between t={s["t"]} and t={p["t"]}')
            for q in ('form_time', 'proc_id_origin', 'proc_type_origin', 'pdg_mother1',
                      'pdg_mother2', 'ncoll', 'time_last_coll'):
                if s[q] != p[q] and not (s[q] != s[q] and p[q] != p[q]):
                    self.fail('history', f'{where}: {q} of particle {p["ID"]} changed from {s[q]} to '
                                         f'{p[q]} between interactions')
        # time
        ts = [p['t'] for p in inc]
        if ts and max(ts) - min(ts) > 1e-6:
            self.fail('time', f'{where}: incoming particles are at different times {ts}')
        t = ts[0] if ts else (out[0]['t'] if out else last_t)
        for p in out:
            if abs(p['t'] - t) > 1e-6:
                self.fail('time', f'{where}: outgoing particle {p["ID"]} at t={p["t"]}, incoming at {t}')
        if ty not in (WALL, FREEFORALL):
            if self.o['ordered'] and t < last_t - 1e-6:
                self.fail('time', f'{where}: at t={t}, after an interaction at t={last_t}')
            last_t = max(last_t, t)
            if self.o['until'] and self.o.get('end') is not None and t > self.o['end'] + 1e-6:
                self.fail('time', f'{where}: at t={t}, after the end time {self.o["end"]}')
        # conservation
        if self.o['conserve'] and ty not in (FREEFORALL, 7, FLUID):
            a, b = self.totals(inc), self.totals(out)
            scale = max(1., a[0][0])
            tol = 1e-6 * scale
            if any(abs(u - v) > tol for u, v in zip(a[0], b[0])) and self.o['conserve'] != 'charges':
                self.fail('conserve', f'{where}: four-momentum {a[0]} -> {b[0]} in '
                                      f'{[p["pdg"] for p in inc]} -> {[p["pdg"] for p in out]}')
            qa, qb = a[1], b[1]
            if self.o['weak'] and ty == DECAY:
                qa, qb = (qa[0], qa[4]), (qb[0], qb[4])
            if qa != qb:
                self.fail('conserve', f'{where}: charge, strangeness, charm, bottom, baryon number '
                                      f'{qa} -> {qb} in {[p["pdg"] for p in inc]} -> '
                                      f'{[p["pdg"] for p in out]}')
            self.n['conservation checks'] += 1
        # what goes in leaves, what comes out exists from now on
        for p in inc:
            state.pop(p['ID'], None)
        inc_by_id = {p['ID']: p for p in inc}
        for p in out:
            self.particle(p, where)
            if ty in KEEP_ID:
                s = inc_by_id.get(p['ID'])
                if s is None:
                    self.fail('once', f'{where}: outgoing id {p["ID"]} is not among the incoming {ids}')
                elif s['pdg'] != p['pdg']:
                    self.fail('once', f'{where}: particle {p["ID"]} turned from {s["pdg"]} to {p["pdg"]}')
            elif p['ID'] in seen:
                self.fail('once', f'{where}: outgoing id {p["ID"]} was used before')
            if p['ID'] in state:
                self.fail('once', f'{where}: outgoing id {p["ID"]} exists already')
            state[p['ID']] = p
            seen.add(p['ID'])
        if ty == FLUID:
            for p in out:
                state.pop(p['ID'], None)
        # history of the outgoing particles
        if ty not in (FREEFORALL,):
            pids = {p['proc_id_origin'] for p in out}
            if ty in (WALL, FLUID_KEEP):
                pass
            elif len(pids) > 1:
                self.fail('history', f'{where}: outgoing particles carry several process ids {pids}')
            elif pids:
                (pid,) = pids
                if pid in procs:
                    self.fail('history', f'{where}: process id {pid} was used before')
                procs.add(pid)
            for p in out:
                if ty not in (WALL, FLUID_KEEP) and p['proc_type_origin'] != ty:
                    self.fail('history', f'{where}: outgoing particle {p["ID"]} carries process type '
                                         f'{p["proc_type_origin"]}')
                if ty not in (WALL, FLUID_KEEP):
                    if abs(p['time_last_coll'] - t) > 1e-6:
                        self.fail('history', f'{where}: particle {p["ID"]} has time of last collision '
                                             f'{p["time_last_coll"]}, the interaction is at {t}')
                if ty != WALL:
                    self.mothers(where, ty, p, inc, inc_by_id)
            if ty in (WALL,):
                for p in out:
                    s = inc_by_id.get(p['ID'])
                    if s and any(s[h] != p[h] for h in HISTORY):
                        self.fail('history', f'{where}: a wall crossing changed the collision history '
                                             f'of particle {p["ID"]}')
        if ty in FORM and len(inc) > 0:
            # products of unformed particles inherit the latest formation time, others form at once
            want = max([t] + ([p['form_time'] for p in inc] if ty != DECAY else []))
            for p in out:
                self.n['formation times checked'] += 1
                if abs(p['form_time'] - want) > 1e-6:
                    self.fail('form', f'{where}: formation time of {p["ID"]} is {p["form_time"]}, expected {want} '
                                      f'(at t={t}, incoming formed at {[q["form_time"] for q in inc]})')
                if want <= t + 1e-9 and abs(p['xsecfac'] - 1.) > 1e-9:
                    self.fail('form', f'{where}: cross section factor of the formed particle {p["ID"]} is {p["xsecfac"]}')
        if ty == ELASTIC:
            for p in out:
                s = inc_by_id.get(p['ID'])
                if s and p['ncoll'] != s['ncoll'] + 1:
                    self.fail('history', f'{where}: collision number of {p["ID"]} goes from '
                                         f'{s["ncoll"]} to {p["ncoll"]}')
        # box walls
        if self.o['box'] and ty == WALL:
            L = self.o['box']
            for p in out:
                s = inc_by_id.get(p['ID'])
                if not s:
                    continue
                self.n['wall crossings'] += 1
                if not self.same_p(s, p):
                    self.fail('box', f'{where}: wall crossing changed the momentum of {p["ID"]}')
                jumped = 0
                for x in 'xyz':
                    n = (p[x] - s[x]) / L
                    if abs(n - round(n)) > 1e-6:
                        self.fail('box', f'{where}: {x} of particle {p["ID"]} goes from {s[x]} to {p[x]}'
                                         f', not by a multiple of the box length {L}')
                    jumped += round(n) != 0
                    if not (-1e-6 <= p[x] <= L + 1e-6):
                        self.fail('box', f'{where}: particle {p["ID"]} is put to {x}={p[x]} outside of '
                                         f'the box [0, {L})')
                if not jumped:
                    self.fail('box', f'{where}: particle {p["ID"]} did not cross a wall')
        elif self.o['box']:
            L = self.o['box']
            slack = 1e-6 + (self.o['timestep'] or 0.)
            for p in inc + out:
                for x in 'xyz':
                    if not (-slack <= p[x] <= L + slack):
                        self.fail('box', f'{where}: particle {p["ID"]} is at {x}={p[x]}, outside of the '
                                         f'box [0, {L})')
        return last_t

    def mothers(self, where, ty, p, inc, inc_by_id):
        m = (p['pdg_mother1'], p['pdg_mother2'])
        if ty in (ELASTIC, FAILED, FLUID_KEEP):
            s = inc_by_id.get(p['ID'])
            if s and ty != FAILED and m != (s['pdg_mother1'], s['pdg_mother2']):
                self.fail('history', f'{where}: mothers of {p["ID"]} changed to {m}')
        elif ty in (DECAY,):
            if m != (inc[0]['pdg'], 0):
                self.fail('history', f'{where}: mothers of decay product {p["ID"]} are {m}, the decaying '
                                     f'particle is {inc[0]["pdg"]}')
        elif ty in TWO_IN and len(inc) == 2:
            if m != (inc[0]['pdg'], inc[1]['pdg']):
                self.fail('history', f'{where}: mothers of {p["ID"]} are {m}, the incoming particles are '
                                     f'{[q["pdg"] for q in inc]}')
        elif ty in (10, 11, 14, 12):
            if m != (0, 0):
                self.fail('history', f'{where}: mothers of {p["ID"]} are {m} after a multi-particle '
                                     'reaction')

    def final(self, key, state, plist, init, k):
        where = f'event {key} end'
        ids = [p['ID'] for p in plist]
        if len(set(ids)) != len(ids):
            dup = [i for i, n in Counter(ids).items() if n > 1]
            self.fail('once', f'{where}: final ids {dup} occur more than once')
        lost = set(state) - set(ids)
        extra = set(ids) - set(state)
        if lost:
            self.fail('once', f'{where}: particles {sorted(lost)[:10]} of the log are missing from the '
                              'final list')
        if extra:
            self.fail('once', f'{where}: particles {sorted(extra)[:10]} of the final list never '
                              'came out of an interaction')
        self.n['final particles'] += len(plist)
        if self.o['until'] and self.o.get('end') is not None and plist and abs(plist[0]['t'] - self.o['end']) > 1e-6:
            self.fail('time', f'{where}: the final particles are at t={plist[0]["t"]}, the end time is '
                              f'{self.o["end"]}')
        ts = [p['t'] for p in plist]
        if ts and max(ts) - min(ts) > 1e-6 and self.o['until']:
            self.fail('time', f'{where}: final particles are at different times {min(ts)}..{max(ts)}')
        for p in plist:
            s = state.get(p['ID'])
            self.particle(p, where)
            if s is None:
                continue
            if s['pdg'] != p['pdg']:
                self.fail('once', f'{where}: particle {p["ID"]} was {s["pdg"]}, ends as {p["pdg"]}')
            if self.o['free']:
                if not self.same_p(s, p):
                    self.fail('free', f'{where}: momentum of {p["ID"]} changed to {four(p)}')
                d = self.moved(s, p)
                if d > 1e-6 * (1 + abs(p['t'] - s['t'])):
                    self.fail('free', f'{where}: particle {p["ID"]} is {d} fm off its straight line '
                                      f'between t={s["t"]} and t={p["t"]}')
            for q in ('form_time', 'proc_id_origin', 'proc_type_origin', 'pdg_mother1', 'pdg_mother2',
                      'ncoll', 'time_last_coll'):
                if s[q] != p[q] and not (s[q] != s[q] and p[q] != p[q]):
                    self.fail('history', f'{where}: {q} of particle {p["ID"]} changed from {s[q]} to '
                                         f'{p[q]} since its last interaction')
            if self.o['box']:
                L = self.o['box']
                for x in 'xyz':
                    if not (-1e-6 <= p[x] <= L + 1e-6):
                        self.fail('box', f'{where}: particle {p["ID"]} ends at {x}={p[x]}, outside of the '
                                         f'box [0, {L})')
        if self.o['conserve'] is True and self.o['free'] and not self.o['fluid']:
            a, b = init, self.totals(plist)
            tol = 1e-6 * max(1., a[0][0]) * (1 + k) ** 0.5
            if any(abs(u - v) > tol for u, v in zip(a[0], b[0])):
                self.fail('conserve', f'{where}: four-momentum of the event {a[0]} -> {b[0]}')
            qa, qb = a[1], b[1]
            if self.o['weak']:
                qa, qb = (qa[0], qa[4]), (qb[0], qb[4])
            if qa != qb:
                self.fail('conserve', f'{where}: charges of the event {qa} -> {qb}')


def particle_table(path, modes=None):
    """pdg -> (mass, width, smallest mass) from a particle list, both signs, for every charge state

    The smallest mass of a resonance is the smallest sum of its products' smallest masses."""
    out, name_of, iso = {}, {}, {}
    for l in open(path, encoding='utf-8'):
        w = l.split('#')[0].split()
        if len(w) < 4:
            continue
        m, g = float(w[1]), float(w[2])
        i = 3
        if w[3] in '+-':
            i = 4
        iso[w[0]] = (m, g)
        for c in w[i:]:
            v = int(c)
            out[v] = out[-v] = (m, g, 0.)
            name_of[v] = w[0]
    if modes is None:
        return out
    import unicodedata
    decays, cur = {}, None
    for l in open(modes, encoding='utf-8'):
        w = l.split('#')[0].split()
        if not w:
            continue
        if len(w) == 1:
            cur = decays.setdefault(w[0], [])
        elif cur is not None and len(w) >= 4:
            cur.append(w[2:])

    def base(n):
        if n in iso:
            return n
        # a charge state or an antiparticle: strip the marks
        k = n.replace('\u0305', '')
        for _ in range(3):
            if k in iso:
                return k
            k = k.rstrip('\u207a\u207b\u2070+-')
            if k in iso:
                return k
        for sign in ('\u207a', '\u207b', '\u2070'):
            if k + sign in iso:
                return k + sign
        return None
    low = {}

    def lowest(n, depth=0):
        b = base(n)
        if b is None:
            return 0.
        if b in low:
            return low[b]
        m, g = iso[b]
        best = m
        if g >= 1e-5 and depth < 12:
            for products in decays.get(b, []):
                best = min(best, sum(lowest(x, depth + 1) for x in products))
        low[b] = best
        return best
    for v, n in name_of.items():
        m, g, _ = out[v]
        out[v] = out[-v] = (m, g, lowest(n))
    return out
