import datetime as dt

from dst import gen, simtime
from dst.gen import chance, choice
from dst.props import common
from dst.vals import Raw, enc

S = dt.timedelta(seconds=1)
TEXT = '%Y-%m-%dT%H:%M:%SZ'
EPOCH = dt.datetime(1970, 1, 1)
SHIFTS = [0, 0, -1, 1, -2, 60, -60, 1799, 1800, 1801, -1800, -1801, 3599, 3600, 3601, -3600, -3601, 5400, -5400, 7199, 7200,
    -7200, 10800, -10800, 86400, -86400]


def instant(rng, zone):
    """A UTC instant (naive), biased to where the zone's rules change."""
    r = rng.random()
    year = choice(rng, [1970, 1971, 1999, 2000, 2012, 2021, 2024, 2024, 2037, 2038, 2039, 2100, 2399])
    if zone.dst is not None and r < 0.65:
        moment = choice(rng, zone.transitions(year)) + choice(rng, SHIFTS) * S
        if moment < dt.datetime(1970, 1, 2):
            moment = dt.datetime(1970, 6, 1, 12)
    elif zone.dst is None and r < 0.15:
        moment = choice(rng, [dt.datetime(1000, 1, 2), dt.datetime(1, 1, 3), dt.datetime(99, 7, 8, 9), dt.datetime(999, 12, 30, 23, 59, 59), dt.datetime(1969, 12, 31, 23, 59, 59), dt.datetime(1900, 2, 28, 12),
            dt.datetime(9998, 12, 30), dt.datetime(1969, 12, 31, 23, 59, 58)])
    elif r < 0.8:
        moment = choice(rng, [dt.datetime(2000, 1, 1), dt.datetime(2012, 2, 29, 23, 59, 59), dt.datetime(2038, 1, 19, 3, 14, 7),
            dt.datetime(2001, 9, 9, 1, 46, 40), dt.datetime(1970, 1, 2)]) + choice(rng, [0, 0, 1, -1, 3600]) * S
        if zone.dst is not None:
            moment = max(moment, dt.datetime(1970, 1, 2))
    else:
        moment = dt.datetime(year, 1, 2) + int(rng.random() * 364 * 86400) * S
    if chance(rng, 0.15):
        moment += dt.timedelta(microseconds=choice(rng, [1, 500000, 999999]))
    return moment


def native(rng, moment, zone):
    """The instant as a value in some zone; encoded."""
    tz = choice(rng, [None, None, 'LOCAL', 'LOCAL', 'UTC', 0, 60, -300, 330, 345, -720, 720, 840, -600, -210])
    if tz is None or tz == 'LOCAL':
        wall = moment + zone.offset_at(moment) * S
        if chance(rng, 0.1):
            # any wall time, even one that does not exist
            wall += choice(rng, [1800, 3600, -3600, 1]) * S
    elif tz == 'UTC':
        wall = moment
    else:
        wall = moment + dt.timedelta(minutes=tz)
    return {'%dt': [wall.year, wall.month, wall.day, wall.hour, wall.minute, wall.second, wall.microsecond, tz]}


def readings(v, zone, utc):
    """The instants (UTC, naive) a value may denote for a field."""
    if isinstance(v, str):
        return [dt.datetime.strptime(v, TEXT)]
    d = v['%dt']
    wall, tz = dt.datetime(*d[:7]), d[7]
    if tz == 'UTC' or tz is None and utc:
        return [wall]
    if tz is None or tz == 'LOCAL':
        found = zone.instants(wall)
        return found or [wall - zone.std * S, wall - zone.dst * S]
    return [wall - dt.timedelta(minutes=tz)]


def text_of(moment):
    return moment.replace(microsecond=0).isoformat() + 'Z'


def definite(rng, zone, utc):
    """A bound of a field: its spelling and its instant."""
    while True:
        moment = instant(rng, zone).replace(microsecond=0)
        v = text_of(moment) if chance(rng, 0.5) else native(rng, moment, zone)
        found = readings(v, zone, utc)
        if len(found) == 1:
            return v, found[0]


def elsewhere(rng, v, pool):
    """The encoded ``v`` with its date-times written in zones of ``pool``."""
    if isinstance(v, list):
        return [elsewhere(rng, x, pool) for x in v]
    if isinstance(v, dict):
        if '%dt' in v:
            d, tz = v['%dt'], choice(rng, pool)
            if isinstance(d[7], int) and 1970 < d[0] < 9998:
                w = dt.datetime(*d[:7]) + dt.timedelta(minutes=tz - d[7])
                return {'%dt': [w.year, w.month, w.day, w.hour, w.minute, w.second, w.microsecond, tz]}
            if chance(rng, 0.5) and 1970 < d[0] < 9998:
                return {'%dt': d[:7] + [tz]}
            return v
        return dict((k, elsewhere(rng, x, pool)) for k, x in v.items())
    return v


class C13(common.Check):
    """Date-times."""

    id = 'C13'
    quick = 2000
    time_note = 'simulated seconds the clock moved during operations (ticks and jumps)'
    stub = common.Check.stub + ['system clock', 'local time zone rules (through TZ; the zone model of the oracle is independent)']

    def generate(self, rng):
        zone = choice(rng, simtime.ZONES)
        specs, known = [], []
        for i in range(choice(rng, [1, 2, 3])):
            p = {}
            if chance(rng, 0.4):
                p['utc'] = True
            for name in ('minimum', 'maximum'):
                if chance(rng, 0.3):
                    p[name], moment = definite(rng, zone, 'utc' in p)
                    known.append(moment)
            specs.append(['datetime', p])
        specs.append(['structure', {'structure': [['d', specs[0]], ['u', ['datetime', {'utc': True}]],
            ['l', ['sequence', {'item': ['datetime', {}]}]], ['day', ['date', {}]], ['at', ['time', {}]],
            ['m', ['map', {'value': ['datetime', {}]}]]]}])
        specs.append(['date', {'minimum': '2000-01-01', 'maximum': enc(dt.date(2038, 1, 19))} if chance(rng, 0.3) else {}])
        specs.append(['time', {'minimum': '00:00:01', 'maximum': enc(dt.time(23, 30))} if chance(rng, 0.3) else {}])
        moments = known + [instant(rng, zone) for i in range(3)]
        tasks, moves = [], []
        for t in range(choice(rng, [1, 1, 2, 3])):
            ops = []
            for i in range(choice(rng, [2, 4, 6, 10])):
                ops.append(self.call(rng, zone, specs, moments))
                if chance(rng, 0.15):
                    moves.append([t, i, int(rng.random() * 60), 'jump', choice(rng, [-86400.0, 15000000.0, 3600.0, -3600.0,
                        -0.5, 31536000.0])])
            tasks.append(ops)
        final = [o for o in [self.call(rng, zone, specs, moments) for i in range(3)] if o['op'] != 'timestamp']
        start = (instant(rng, zone) - EPOCH).total_seconds()
        return {'subs': [], 'schemas': specs, 'tasks': tasks, 'plan': common.plan(rng), 'moves': moves, 'final': final,
            'env': {'tz': zone.rule, 'clock': [start, choice(rng, [0.0, 0.001, 1.0, 1800.0])]}}

    def derive(self, case, hot, rng):
        case = common.Check.derive(self, case, hot, rng)
        uses = [o for ops in case['tasks'] for o in ops if o['op'] == 'dates']
        if uses and chance(rng, 0.7):
            # the same and other instants, in zones far apart
            pool = choice(rng, [[840, -600, 780, -660, 720, -720], [0, 60, -60, 1439, -1439], [840, -600], [1380, -60, 60, -1380]])
            case['tasks'] = [[elsewhere(rng, choice(rng, uses), pool) for i in range(choice(rng, [4, 8, 14]))]
                for t in range(choice(rng, [1, 2, 3]))]
            case['moves'] = []
        return case

    def call(self, rng, zone, specs, moments):
        si = int(rng.random() * len(specs))
        moment = instant(rng, zone) if chance(rng, 0.5) else choice(rng, moments) + choice(rng, [0, 0, 0, 1, -1, 3600, -3600]) * S
        if moment < dt.datetime(1970, 1, 2) and zone.dst is not None:
            moment = dt.datetime(1970, 6, 1, 12)
        spec = specs[si]
        if chance(rng, 0.07):
            return {'op': 'timestamp', 'tz': choice(rng, ['LOCAL', 'UTC']), 'nobase': True}
        if chance(rng, 0.1):
            return {'op': choice(rng, ['describe', 'repr']), 's': si}
        mode = choice(rng, ['out', 'out', 'in', 'in', 'native', 'there', 'back'])
        o = {'op': 'dates', 's': si, 'mode': mode}
        if chance(rng, 0.12):
            o['rebuilt'] = True
        if mode in ('out', 'in') and chance(rng, 0.15):
            o['fmt'] = 'json'
        text = mode in ('in', 'back')
        if spec[0] == 'datetime':
            o['v'] = text_of(moment) if text else native(rng, moment, zone)
        elif spec[0] == 'date':
            o['v'] = moment.date().isoformat() if text else enc(moment.date())
        elif spec[0] == 'time':
            o['v'] = moment.strftime('%H:%M:%S') if text else enc(moment.time().replace(microsecond=0))
        else:
            def leaf():
                m = choice(rng, [moment, moment + S, instant(rng, zone)])
                return Raw(text_of(m) if text else native(rng, m, zone))
            v = {}
            if chance(rng, 0.7): v['d'] = leaf()
            if chance(rng, 0.7): v['u'] = leaf()
            if chance(rng, 0.5): v['l'] = [leaf() for i in range(int(rng.random() * 4))]
            if chance(rng, 0.4): v['m'] = dict((k, leaf()) for k in ['a', 'b'][:int(rng.random() * 3)])
            if chance(rng, 0.4): v['day'] = moment.date().isoformat() if text else moment.date()
            if chance(rng, 0.4): v['at'] = moment.strftime('%H:%M:%S') if text else moment.time().replace(microsecond=0)
            o['v'] = enc(v)
        return o

    def judge(self, case, b, res, ev):
        self.compare(case, b, res, ev)
        zone = simtime.zone(case['env']['tz'])
        everything = [(tid, i, o, res.outcomes[tid][i], res.data[tid]['raw'].get(i)) for tid, ops in enumerate(case['tasks'])
            for i, o in enumerate(ops)]
        everything += [('final', i, o, res.final[i], res.final_data['raw'].get(i)) for i, o in enumerate(case['final'])]
        for tid, i, o, got, raw in everything:
            if got is None or got[0] == 'stuck':
                continue
            spec = case['schemas'][o['s']] if 's' in o else None
            problem = None
            if o['op'] == 'dates':
                problem = self.dates(spec, o, got, raw, zone, ev)
            elif o['op'] == 'describe' and spec[0] == 'datetime':
                for name in ('minimum', 'maximum'):
                    wanted = text_of(readings(spec[1][name], zone, bool(spec[1].get('utc')))[0]) if name in spec[1] else None
                    if got[0] != 'ok' or raw.get(name) != wanted:
                        problem = 'described %s %r, is %r' % (name, raw.get(name) if got[0] == 'ok' else got, wanted)
            if problem:
                ev.add('instant:' + o.get('mode', o['op']), task=tid, op=i, zone=zone.rule, field=spec, value=o.get('v'),
                    problem=problem, observed=common.short(got))

    def dates(self, spec, o, got, raw, zone, ev):
        mode, v = o['mode'], o['v']
        if spec[0] == 'structure':
            if got[0] != 'ok':
                return self.rejected(spec, v, got, raw, zone)
            members = dict(spec[1]['structure'])
            given = dict((k, x) for k, x in v['%d'])
            if sorted(given) != sorted(raw):
                return 'members differ'
            for k, x in given.items():
                if k == 'l':
                    pairs = list(zip(x, raw[k])) if len(x) == len(raw[k]) else [(None, None)]
                elif k == 'm':
                    pairs = [(y, raw[k].get(n)) for n, y in x['%d']]
                else:
                    pairs = [(x, raw[k])]
                leafspec = {'l': ['datetime', {}], 'm': ['datetime', {}]}.get(k, members[k])
                for x, r in pairs:
                    problem = self.leaf(leafspec, mode, x, r, zone, ev)
                    if problem:
                        return '%s: %s' % (k, problem)
            return
        if got[0] != 'ok':
            return self.rejected(spec, v, got, raw, zone)
        return self.leaf(spec, mode, v, raw, zone, ev)

    def bounds(self, spec, zone):
        out = []
        for name in ('minimum', 'maximum'):
            x = spec[1].get(name)
            out.append(readings(x, zone, bool(spec[1].get('utc')))[0] if x is not None else None)
        return out

    def leaf(self, spec, mode, v, r, zone, ev):
        ev.count('values_judged')
        if v is None:
            return 'lost'
        if spec[0] in ('date', 'time'):
            same = v if isinstance(v, str) else (dt.date(*v['%date']).isoformat() if spec[0] == 'date'
                else dt.time(*v['%time']).strftime('%H:%M:%S'))
            if r != same:
                return 'wanted %r' % same
            if 'minimum' in spec[1] and not ('2000-01-01' <= r <= '2038-01-19' if spec[0] == 'date' else
                    '00:00:01' <= r <= '23:30:00'):
                return 'accepted out of bounds'
            return
        utc = bool(spec[1].get('utc'))
        found = readings(v, zone, utc)
        if len(found) > 1:
            ev.count('ambiguous_or_missing_wall_times')
        if isinstance(r, str):
            moment = dt.datetime.strptime(r, TEXT)
            if r != text_of(moment) or r not in [text_of(x) for x in found]:
                return 'text is %s, wanted %s' % (r, [text_of(x) for x in found])
        else:
            wall, offset, tz = dt.datetime(*r[0]), r[1], r[2]
            if tz != ('UTC' if utc else 'LocalTimezone()'):
                return 'in zone %s' % tz
            moment = wall - offset * S
            if not utc and offset != zone.offset_at(moment) and len(found) == 1:
                return 'offset %s at %s, is %s' % (offset, moment, zone.offset_at(moment))
            if mode == 'there':
                found = [x.replace(microsecond=0) for x in found]
            if moment not in found:
                return 'instant is %s, wanted %s' % (moment, [str(x) for x in found])
        low, high = self.bounds(spec, zone)
        inside = [x for x in found if (low is None or x >= low) and (high is None or x <= high)]
        if not inside:
            return 'accepted out of bounds %s..%s' % (low, high)

    def rejected(self, spec, v, got, raw, zone):
        """Whether the rejection of a value is due, and names the bound."""
        if spec[0] == 'structure':
            low, high = self.bounds(spec[1]['structure'][0][1], zone)
            member = spec[1]['structure'][0][1]
            x = dict((k, y) for k, y in v['%d']).get('d')
            if x is None:
                return 'rejected'
            return self.rejected(member, x, got, raw.structure.get('d') if getattr(raw, 'structure', None) else raw, zone)
        try:
            entry = raw.serialize()[0][0]
        except Exception:
            return 'failed: %r' % raw
        token, message = entry['token'], entry['message']
        if spec[0] in ('date', 'time'):
            s = v if isinstance(v, str) else (dt.date(*v['%date']).isoformat() if spec[0] == 'date'
                else dt.time(*v['%time']).strftime('%H:%M:%S'))
            low, high = ('2000-01-01', '2038-01-19') if spec[0] == 'date' else ('00:00:01', '23:30:00')
            if 'minimum' not in spec[1] or low <= s <= high:
                return 'rejected: %s' % token
            if (low if s < low else high) not in message or token != ('minimum' if s < low else 'maximum'):
                return 'reported as %s: %s' % (token, message)
            return
        found = readings(v, zone, bool(spec[1].get('utc')))
        low, high = self.bounds(spec, zone)
        if token == 'minimum' and low is not None and any(x < low for x in found):
            bound = low
        elif token == 'maximum' and high is not None and any(x > high for x in found):
            bound = high
        else:
            return 'rejected: %s %s, bounds %s..%s' % (token, message, low, high)
        if text_of(bound) not in message:
            return 'bound reported as %s, is %s' % (message, text_of(bound))
