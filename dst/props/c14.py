import datetime as dt

from dst import gen, simtime
from dst.gen import chance, choice
from dst.props import common
from dst.props.c13 import EPOCH, S, instant, native, text_of
from dst.vals import enc

ZONES = ['UTC', 'LOCAL', 'LOCAL', 0, 60, -300, 330, 345, 840, -720, -210]
OTHERS = [None, 'UTC ', 5.5, 'utc', [], 'America/New_York', {'%obj': 'PL_A'}]


def moment(rng, zone):
    """Where the clock stands, in seconds, with room for jumps (the platform knows no daylight rules before 1970)."""
    while True:
        m = instant(rng, zone)
        if 1975 <= m.year <= 2400:
            return (m - EPOCH).total_seconds()


class C14(common.Check):
    """The current timestamp."""

    id = 'C14'
    quick = 3000
    time_note = 'simulated seconds the clock moved during operations (ticks and jumps)'
    stub = common.Check.stub + ['system clock', 'local time zone rules (through TZ; the zone model of the oracle is independent)']
    assumptions = common.Check.assumptions[:1] + ['the clock is read through the standard library (time, datetime)']

    def generate(self, rng):
        zone = choice(rng, simtime.ZONES)
        start = moment(rng, zone)
        tasks, moves = [], []
        specs = [['datetime', {}], ['datetime', {'utc': True}]]
        for t in range(choice(rng, [1, 2, 2, 3, 4])):
            ops = []
            for i in range(choice(rng, [2, 4, 8, 14])):
                r = rng.random()
                if r < 0.12:
                    ops.append({'op': 'dates', 's': choice(rng, [0, 1]), 'mode': 'out', 'v': native(rng, instant(rng, zone), zone)})
                elif r < 0.2:
                    ops.append({'op': 'dates', 's': choice(rng, [0, 1]), 'mode': 'in', 'v': text_of(instant(rng, zone))})
                else:
                    o = {'op': 'timestamp', 'plain': True, 'watch_clock': True, 'nobase': True}
                    if r < 0.35:
                        o['tz'] = choice(rng, OTHERS)
                        if isinstance(o['tz'], list):
                            o['tz'] = enc(o['tz'])
                    elif r < 0.9:
                        o['tz'] = choice(rng, ZONES)
                    ops.append(o)
                for n in range(2):
                    if chance(rng, 0.2):
                        if chance(rng, 0.7):
                            moves.append([t, i, 1 + int(rng.random() * 12), 'jump', choice(rng, [-86400.0, 15000000.0, 3600.0,
                                -3600.0, -0.25, 31536000.0, 0.000001, 1800.0, -1.0])])
                        else:
                            moves.append([t, i, 1 + int(rng.random() * 12), 'set', moment(rng, zone)])
            tasks.append(ops)
        return {'subs': [], 'schemas': specs, 'tasks': tasks, 'plan': common.plan(rng), 'moves': moves, 'final': [],
            'env': {'tz': zone.rule, 'clock': [start, choice(rng, [0.0, 0.0, 0.000001, 0.001, 1.0, 1800.0])]}}

    def judge(self, case, b, res, ev):
        self.compare(case, b, res, ev)
        zone = simtime.zone(case['env']['tz'])
        for tid, ops in enumerate(case['tasks']):
            for i, o in enumerate(ops):
                if o['op'] != 'timestamp' or res.outcomes[tid][i] is None:
                    continue
                lo, hi = res.data[tid]['shown'].get(i, (0, 0))
                problem = self.wrong(o, res.outcomes[tid][i], res.data[tid]['raw'].get(i), res.clock.shown[lo:hi], zone, ev)
                if problem:
                    ev.add('timestamp', task=tid, op=i, zone=zone.rule, asked=o.get('tz', 'none'), problem=problem,
                        observed=common.short(res.outcomes[tid][i]), shown=common.short(res.clock.shown[lo:hi]))

    def wrong(self, o, got, r, shown, zone, ev):
        if got[0] != 'ok':
            return 'failed'
        if not isinstance(r, tuple) or len(r) != 3:
            return 'no date-time'
        wall, offset, tz = dt.datetime(*r[0]), r[1], r[2]
        ev.count('timestamps_judged')
        if offset is None:
            return 'not aware'
        moment = wall - dt.timedelta(seconds=offset)
        asked = o.get('tz', 'UTC')
        if asked == 'LOCAL':
            if tz != 'LocalTimezone()':
                return 'in zone %s' % tz
            if offset != zone.offset_at(moment):
                return 'offset %s at %s, is %s' % (offset, moment, zone.offset_at(moment))
        elif isinstance(asked, int) and not isinstance(asked, bool):
            if not tz.startswith('datetime.timezone') or offset != asked * 60:
                return 'in zone %s' % tz
        elif tz != 'UTC' or offset:
            return 'in zone %s' % tz
        # to the microsecond, or to what a floating point clock can tell apart
        if not any(abs((moment - EPOCH - dt.timedelta(seconds=x)).total_seconds()) < 0.0000025 + abs(x) * 5e-16 for x in shown):
            return 'instant is %s' % moment
