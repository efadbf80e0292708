"""Simulated clock and local time zone."""
import datetime
import os
import time

REAL_TIME = time.time
REAL_NS = getattr(time, 'time_ns', None)
REAL_SLEEP = time.sleep
REAL_MONO = time.monotonic


class Clock(object):
    def __init__(self, now, tick=0.0):
        self.now = now
        self.tick = tick            # how much every reading advances the clock
        self.covered = 0.0
        self.shown = []             # every instant shown while being watched
        self.watch = False

    def read(self):
        value = self.now
        self.now += self.tick
        self.covered += self.tick
        if self.watch:
            self.shown.append(value)
        return value

    def jump(self, delta):
        self.now += delta
        self.covered += abs(delta)

    def set(self, now):
        self.covered += abs(now - self.now)
        self.now = now

    def install(self):
        time.time = self.read
        time.time_ns = lambda: int(self.read() * 1000000000)
        time.sleep = self.jump
        time.monotonic = lambda: 1000.0 + self.covered

    @staticmethod
    def uninstall():
        time.time = REAL_TIME
        if REAL_NS is not None:
            time.time_ns = REAL_NS
        time.sleep = REAL_SLEEP
        time.monotonic = REAL_MONO


def set_zone(rule):
    os.environ['TZ'] = rule
    time.tzset()


# ---------------------------------------------------------------- zone model
class Zone(object):
    """An independent model of a POSIX time zone rule (offsets in seconds east)."""

    def __init__(self, rule, std, dst=None, start=None, end=None):
        self.rule = rule
        self.std = std
        self.dst = dst          # None without daylight saving
        self.start = start      # (month, week, weekday(0=Sunday), seconds of local standard time)
        self.end = end          # same, in local daylight time

    @staticmethod
    def _nth(year, month, week, weekday):
        first = datetime.date(year, month, 1)
        offset = (weekday - (first.isoweekday() % 7)) % 7
        day = 1 + offset + 7 * (week - 1)
        while True:
            try:
                return datetime.date(year, month, day)
            except ValueError:
                day -= 7

    def transitions(self, year):
        """UTC instants (naive) of the start and the end of daylight saving in ``year``."""
        m, w, d, s = self.start
        start = datetime.datetime.combine(self._nth(year, m, w, d), datetime.time()) \
            + datetime.timedelta(seconds=s - self.std)
        m, w, d, s = self.end
        end = datetime.datetime.combine(self._nth(year, m, w, d), datetime.time()) \
            + datetime.timedelta(seconds=s - self.dst)
        return start, end

    def offset_at(self, utc):
        """Offset in force at the UTC instant ``utc`` (naive datetime)."""
        if self.dst is None:
            return self.std
        start, end = self.transitions(utc.year)
        if start < end:
            return self.dst if start <= utc < end else self.std
        return self.std if end <= utc < start else self.dst

    def instants(self, wall):
        """All UTC instants shown as local wall time ``wall``: none in a gap, two in a fold."""
        found = []
        for offset in sorted(set([self.std, self.dst if self.dst is not None else self.std]), reverse=True):
            utc = wall - datetime.timedelta(seconds=offset)
            if self.offset_at(utc) == offset:
                found.append(utc)
        return found


H = 3600
ZONES = [
    Zone('UTC0', 0),
    Zone('EST5EDT,M3.2.0,M11.1.0', -5 * H, -4 * H, (3, 2, 0, 2 * H), (11, 1, 0, 2 * H)),
    Zone('CET-1CEST,M3.5.0,M10.5.0/3', 1 * H, 2 * H, (3, 5, 0, 2 * H), (10, 5, 0, 3 * H)),
    Zone('IST-5:30', 5 * H + 1800),
    Zone('AEST-10AEDT,M10.1.0,M4.1.0/3', 10 * H, 11 * H, (10, 1, 0, 2 * H), (4, 1, 0, 3 * H)),
    Zone('NST3:30NDT,M3.2.0,M11.1.0', -3 * H - 1800, -2 * H - 1800, (3, 2, 0, 2 * H), (11, 1, 0, 2 * H)),
    Zone('NPT-5:45', 5 * H + 2700),
    Zone('<+14>-14', 14 * H),
    Zone('<-12>12', -12 * H),
    Zone('LHST-10:30LHDT-11,M10.1.0,M4.1.0', 10 * H + 1800, 11 * H, (10, 1, 0, 2 * H), (4, 1, 0, 2 * H)),
    Zone('MST7', -7 * H),
]


def zone(rule):
    for z in ZONES:
        if z.rule == rule:
            return z
    raise KeyError(rule)
