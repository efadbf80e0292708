"""Reduces a failing case while the same kind of violation remains."""
import copy
import json
import time


def clone(x):
    return json.loads(json.dumps(x))


class Minimiser(object):
    def __init__(self, check, case, key, budget=60.0, attempts=500):
        self.check = check
        self.case = case
        self.key = key
        self.deadline = time.time() + budget
        self.attempts = attempts
        self.tried = 0

    def out(self):
        return self.tried >= self.attempts or time.time() > self.deadline

    def fails(self, case):
        """The evaluation, when ``case`` still shows the violation."""
        if self.out():
            return None
        self.tried += 1
        try:
            ev = self.check.evaluate(clone(case))
        except Exception:
            return None
        for v in ev.violations:
            if v.key == self.key:
                return ev
        return None

    def accept(self, case):
        if self.fails(case) is not None:
            self.case = case
            return True
        return False

    def run(self):
        self.freeze()
        self.drop_tasks()
        self.drop_ops()
        self.drop_final()
        self.drop_faults()
        self.drop_switches()
        self.shrink_values()
        self.shrink_schemas()
        self.drop_ops()
        self.drop_switches()
        return self.case

    def freeze(self):
        """Fixes the schedule and the fault positions as they were."""
        ev = self.fails(self.case)
        if ev is None:
            return
        case = clone(ev.case)
        trace = getattr(ev, 'trace', None)
        if trace is not None and len(case.get('tasks', ())) and case.get('plan', [''])[0] != 'replay':
            case['plan'] = ['replay', clone(trace)]
        self.accept(case)

    def drop_tasks(self):
        for i in reversed(range(len(self.case.get('tasks', ())))):
            if self.case['tasks'][i] and sum(1 for t in self.case['tasks'] if t) > 1:
                case = clone(self.case)
                case['tasks'][i] = []
                self.accept(case)

    def drop_ops(self):
        for i, ops in enumerate(self.case.get('tasks', ())):
            for j in reversed(range(len(ops))):
                if self.case['tasks'][i][j].get('op') == 'nop':
                    continue
                case = clone(self.case)
                case['tasks'][i][j] = {'op': 'nop'}
                self.accept(case)
        # trailing operations disappear entirely
        case = clone(self.case)
        for ops in case.get('tasks', ()):
            while ops and ops[-1].get('op') == 'nop':
                ops.pop()
        if case != self.case:
            self.accept(case)

    def drop_final(self):
        final = self.case.get('final') or []
        for j in reversed(range(len(final))):
            if self.case['final'][j].get('op') == 'nop':
                continue
            case = clone(self.case)
            case['final'][j] = {'op': 'nop'}
            self.accept(case)

    def drop_faults(self):
        for name in ('interrupts', 'moves', 'cbfaults', 'importfaults', 'at'):
            for j in reversed(range(len(self.case.get(name) or ()))):
                case = clone(self.case)
                del case[name][j]
                self.accept(case)
        fs = (self.case.get('env') or {}).get('fs') or {}
        for name in ('faults', 'files'):
            for j in reversed(range(len(fs.get(name) or ()))):
                case = clone(self.case)
                del case['env']['fs'][name][j]
                self.accept(case)

    def drop_switches(self):
        plan = self.case.get('plan')
        if not plan or plan[0] != 'replay':
            return
        if len(plan[1]) > 1:
            case = clone(self.case)
            case['plan'] = ['replay', []]
            if self.accept(case):
                return
        n = 2
        while not self.out():
            switches = self.case['plan'][1]
            if len(switches) < 2:
                break
            size = max(1, len(switches) // n)
            reduced = False
            for start in range(0, len(switches), size):
                case = clone(self.case)
                case['plan'] = ['replay', switches[:start] + switches[start + size:]]
                if self.accept(case):
                    reduced = True
                    break
            if reduced:
                n = max(2, n - 1)
            elif size == 1:
                break
            else:
                n = min(len(switches), n * 2)

    # -- data
    def shrink_values(self):
        for where in self.value_places():
            self.shrink_at(where)

    def value_places(self):
        places = []
        for i, ops in enumerate(self.case.get('tasks', ())):
            for j, o in enumerate(ops):
                if 'wanted' in o:       # what is expected belongs to the values as they are
                    continue
                for name in ('v', 'parameters', 'to'):
                    if isinstance(o.get(name), (dict, list)):
                        places.append(['tasks', i, j, name])
        for j, o in enumerate(self.case.get('final') or ()):
            if isinstance(o.get('v'), (dict, list)) and 'wanted' not in o:
                places.append(['final', j, 'v'])
        for j, a in enumerate(self.case.get('args') or ()):
            places.append(['args', j])
        return places

    def get(self, case, where):
        for k in where:
            case = case[k]
        return case

    def shrink_at(self, where):
        try:
            root = self.get(self.case, where)
        except (KeyError, IndexError):
            return
        for sub, items in list(_lists(root)):
            j = len(items) - 1
            while j >= 0 and not self.out():
                case = clone(self.case)
                try:
                    target = self.get(self.get(case, where), sub)
                    del target[j]
                except (KeyError, IndexError, TypeError):
                    break
                self.accept(case)
                j -= 1

    def shrink_schemas(self):
        if any('wanted' in o for ops in self.case.get('tasks', ()) for o in ops):
            return
        for name in ('schemas', 'subs', 'places'):
            for j in range(len(self.case.get(name) or ())):
                for sub in reversed(list(_params(self.case[name][j]))):
                    if self.out():
                        return
                    case = clone(self.case)
                    try:
                        target = self.get(case[name][j], sub[:-1])
                        del target[sub[-1]]
                    except (KeyError, IndexError, TypeError):
                        continue
                    self.accept(case)


REQUIRED = ('item', 'value', 'values', 'fields', 'structure', 'variants', 'on', 'enumeration')


def _params(spec, path=()):
    """Paths of what may be dropped from a schema."""
    if not isinstance(spec, list) or len(spec) != 2 or not isinstance(spec[1], dict):
        return
    for k, v in spec[1].items():
        if k not in REQUIRED:
            yield path + (1, k)
        if k in ('item', 'value', 'key'):
            for p in _params(v, path + (1, k)):
                yield p
        elif k in ('values', 'fields') and isinstance(v, list):
            for i, s in enumerate(v):
                for p in _params(s, path + (1, k, i)):
                    yield p
        elif k in ('structure', 'common') and isinstance(v, list):
            for i, m in enumerate(v):
                yield path + (1, k, i)
                for p in _params(m[1], path + (1, k, i, 1)):
                    yield p
        elif k == 'variants':
            for i, (identity, members) in enumerate(v):
                for j, m in enumerate(members):
                    yield path + (1, k, i, 1, j)
                    for p in _params(m[1], path + (1, k, i, 1, j, 1)):
                        yield p


def _lists(e, path=()):
    """Paths of lists inside an encoded value whose items may be dropped."""
    if isinstance(e, list):
        yield path, e
        for i, x in enumerate(e):
            for p in _lists(x, path + (i,)):
                yield p
    elif isinstance(e, dict) and len(e) == 1:
        (tag, d), = e.items()
        if tag in ('%d', '%od', '%t', '%carrier') and isinstance(d, list):
            yield path + (tag,), d
            for i, x in enumerate(d):
                if tag == '%t':
                    for p in _lists(x, path + (tag, i)):
                        yield p
                else:
                    for p in _lists(x[1], path + (tag, i, 1)):
                        yield p
