"""Runs the check of one property: seeded search, evidence, replay."""
import argparse
import hashlib
import importlib
import json
import os
import random
import subprocess
import sys
import time
import traceback

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WORKERS = int(os.environ.get('DST_WORKERS') or min(8, os.cpu_count() or 1))


def load_check(pid):
    from dst import instrument, sched
    sched.patch_locks()
    instrument.load_library()
    mod = importlib.import_module('dst.props.' + pid.lower())
    return getattr(mod, pid)()


def make_case(check, pid, seed, index):
    rng = random.Random('%s:%s:%d' % (pid, seed, index))
    check.index = index
    return json.loads(json.dumps(check.generate(rng)))


def digest(x):
    return hashlib.sha256(json.dumps(x, sort_keys=True, default=str).encode()).hexdigest()[:16]


# ---------------------------------------------------------------- known findings
def findings(pid):
    """[(signature, text)] of the listed findings of a property."""
    found = []
    path = os.path.join(ROOT, 'known_findings.txt')
    if os.path.exists(path):
        with open(path) as f:
            for line in f:
                line = line.strip()
                if line.startswith('known: property=%s ' % pid):
                    rest = line.split(' ', 2)[2]
                    sig, text = rest.split(' ', 1)
                    found.append((sig.partition('=')[2], text))
    return found


# ---------------------------------------------------------------- workers
def relevant(check, ev, known):
    """Violations that are not listed findings, and how many were."""
    fresh, listed = [], {}
    for v in ev.violations:
        sig = check.signature(v)
        if sig is not None and sig in known:
            listed[sig] = listed.get(sig, 0) + 1
        else:
            fresh.append(v)
    return fresh, listed


def worker(args):
    out = os.fdopen(os.dup(1), 'w')
    null = os.open(os.devnull, os.O_WRONLY)
    os.dup2(null, 1)
    check = load_check(args.property)
    known = set(s for s, t in findings(args.property))

    def send(kind, **data):
        out.write(json.dumps(dict(data, kind=kind), default=str) + '\n')
        out.flush()
    check.deadline = time.time() + args.budget
    done = 0
    last = time.time()
    total = new_total()
    inters, states = set(), set()
    closer = {}         # code location -> how often the search looked closer there
    spent = [0, 0]
    for index in range(args.worker, args.count, args.stride):
        if time.time() > check.deadline:
            break
        try:
            case = make_case(check, args.property, args.seed, index)
            ev = check.evaluate(case)
        except Exception:
            send('error', index=index, text=traceback.format_exc()[-3000:])
            total['errors'] += 1
            if total['errors'] >= 5:
                break
            continue
        done += 1
        if args.recheck and total['rechecked'] < args.recheck:
            again = check.evaluate(make_case(check, args.property, args.seed, index))
            total['rechecked'] += 1
            if (again.inter, again.steps, sorted(v.key for v in again.violations)) != (
                    ev.inter, ev.steps, sorted(v.key for v in ev.violations)):
                total['unrepeatable'] += 1
        todo = [(case, ev)]
        first = ev
        if ev.hot and min(closer.get(s, 0) for s in ev.hot) < 6 and spent[1] <= 16 + 0.2 * spent[0]:
            for s in ev.hot:
                closer[s] = closer.get(s, 0) + 1
            total['closer'] += 1
        else:
            first = None
        found = False
        n = 0
        while todo:
            case, ev = todo.pop()
            account(total, case, ev, inters, states)
            fresh, listed = relevant(check, ev, known)
            for k, n_ in listed.items():
                total['known'][k] = total['known'].get(k, 0) + n_
            if fresh:
                v = fresh[0]
                send('found', index=index, key=v.key)
                report(check, args, case, ev, v, index, send)
                found = True
                break
            if not first:
                spent[0] += 1
            elif n < 5:
                # several operations changed one object: look closer
                rng = random.Random('%s:%s:%d:%d' % (args.property, args.seed, index, n))
                n += 1
                spent[1] += 1
                try:
                    case = check.derive(make_case(check, args.property, args.seed, index), first.hot, rng)
                    todo.append((case, check.evaluate(case)))
                    total['derived'] += 1
                except Exception:
                    send('error', index=index, text=traceback.format_exc()[-3000:])
                    total['errors'] += 1
        if found:
            break
        if index < 3 * args.stride and args.worker == 0 and done <= 2:
            send('sample', index=index, case=case, trace=getattr(ev, 'trace', None), fired=ev.fired)
        if time.time() - last > 5:
            send('beat')
            last = time.time()
    total['inters'] = [len(inters)]
    send('done', total=total, inters=sorted(inters), states=sorted(set(
        int(digest([s]), 16) if not isinstance(s, int) else s for s in states)))


def account(total, case, ev, inters, states):
    total['cases'] += 1
    total['runs'] += ev.runs
    total['solo_runs'] += ev.solo_runs
    total['steps'] += ev.steps
    total['switches'] += ev.switches
    total['simtime'] += ev.simtime
    for k, n in ev.fired.items():
        total['faults'][k] = total['faults'].get(k, 0) + n
    for k, n in getattr(ev, 'counts', {}).items():
        total['counts'][k] = total['counts'].get(k, 0) + n
    if ev.switches or ev.fired or getattr(ev, 'nontrivial', False):
        inters.add(int(digest([case.get('schemas'), case.get('tasks'), ev.inter, ev.fired]), 16))
    states.update(ev.states)


def new_total():
    return {'closer': 0, 'derived': 0, 'cases': 0, 'runs': 0, 'solo_runs': 0, 'steps': 0, 'switches': 0,
        'simtime': 0.0, 'faults': {}, 'counts': {}, 'errors': 0, 'rechecked': 0, 'unrepeatable': 0, 'known': {}}


def report(check, args, case, ev, v, index, send):
    from dst.minimise import Minimiser
    original = json.loads(json.dumps(ev.case))
    m = Minimiser(check, original, v.key, budget=args.shrink)
    small = m.run()
    final = m.check.evaluate(json.loads(json.dumps(small)))
    hits = [x for x in final.violations if x.key == v.key]
    history = None
    if not hits:
        small = original
        final = m.check.evaluate(json.loads(json.dumps(original)))
        hits = [x for x in final.violations if x.key == v.key]
    if not hits:
        # what happened depends on what this process did before
        history = {'seed': args.seed, 'worker': args.worker, 'stride': args.stride, 'index': index}
        hits, small, final = [v], case, ev
    send('violation', index=index, key=v.key, detail=hits[0].detail, case=small, original=case,
        history=history, tried=m.tried, trace=describe(getattr(final, 'trace', None), final),
        fired=final.fired)


def describe(trace, ev):
    """The schedule in words."""
    if trace is None:
        return None
    out = []
    for s in trace[:400]:
        if s[1] == 'end':
            out.append('caller %s starts' % s[2] if s[0] == -1 else 'caller %s is done or waits; caller %s goes on' % (s[0], s[2]))
        else:
            out.append('caller %s, operation %s, step %s: switch to caller %s' % tuple(s))
    return out


# ---------------------------------------------------------------- replay
def replay(path, quiet=False):
    with open(path) as f:
        doc = json.load(f)
    pid = doc['property']
    real = os.fdopen(os.dup(1), 'w')
    null = os.open(os.devnull, os.O_WRONLY)
    os.dup2(null, 1)
    check = load_check(pid)
    check.deadline = time.time() + 3600
    h = doc.get('history')
    if h:
        for index in range(h['worker'], h['index'] + 1, h['stride']):
            if h.get('only') and index not in h['only']:
                continue
            ev = check.evaluate(make_case(check, pid, h['seed'], index))
    else:
        ev = check.evaluate(doc['case'])
    hits = [v for v in ev.violations if v.key == doc['key']]
    same = [v for v in hits if json.loads(json.dumps(v.detail, default=str)) == doc['detail']]
    if not quiet:
        for v in hits[:1]:
            real.write(json.dumps({'violation': v.key, 'detail': v.detail}, indent=1, default=str) + '\n')
    if same:
        real.write('VIOLATION property=%s replay=%s\n' % (pid, path))
    elif hits:
        real.write('VIOLATION property=%s replay=%s\n(the details differ from the recorded ones)\n' % (pid, path))
    else:
        real.write('replay of %s: no violation\n' % path)
    real.flush()
    return 1 if hits else 0


# ---------------------------------------------------------------- coordinator
def command(*args):
    return [sys.executable, '--jit', 'off', '-m', 'dst.main'] + [str(a) for a in args] if 'PyPy' in sys.version \
        else [sys.executable, '-m', 'dst.main'] + [str(a) for a in args]


def coordinate(args):
    start = time.time()
    pid = args.property
    tier = args.tier
    check = load_check(pid)
    count = args.count or (check.quick if tier == 'quick' else check.thorough)
    budget = args.budget or (check.quick_budget if tier == 'quick' else check.thorough_budget)
    procs = []
    for i in range(WORKERS):
        procs.append(subprocess.Popen(command(pid, '--worker', i, '--stride', WORKERS, '--count', count,
            '--seed', args.seed, '--budget', budget, '--recheck', 2 if i < 2 else 0, '--shrink', args.shrink),
            stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=ROOT))
    total = new_total()
    inters, states, samples, errors, violations = set(), set(), [], [], []
    import selectors
    sel = selectors.DefaultSelector()
    bufs = {}
    for i, p in enumerate(procs):
        for stream, name in ((p.stdout, 'out'), (p.stderr, 'err')):
            os.set_blocking(stream.fileno(), False)
            sel.register(stream, selectors.EVENT_READ, (i, name))
            bufs[(i, name)] = b''
    open_streams = 2 * len(procs)
    deadline = start + budget + args.shrink + 150
    pending = set()
    finished = set()
    hung = False
    while open_streams:
        if time.time() > deadline:
            hung = True
            break
        for key, _ in sel.select(timeout=2):
            i, name = key.data
            data = os.read(key.fileobj.fileno(), 1 << 16)
            if not data:
                sel.unregister(key.fileobj)
                open_streams -= 1
                continue
            bufs[(i, name)] += data
            if name != 'out':
                continue
            lines = bufs[(i, name)].split(b'\n')
            bufs[(i, name)] = lines.pop()
            for line in lines:
                m = json.loads(line)
                kind = m['kind']
                if kind == 'found':
                    pending.add(i)
                    # the others have a little time left to find theirs
                    deadline = min(deadline, time.time() + args.shrink + 120)
                elif kind == 'error':
                    errors.append(m)
                elif kind == 'sample':
                    samples.append(m)
                elif kind == 'violation':
                    violations.append(m)
                elif kind == 'done':
                    finished.add(i)
                    t = m['total']
                    for k in total:
                        if isinstance(total[k], dict):
                            for kk, n in t[k].items():
                                total[k][kk] = total[k].get(kk, 0) + n
                        else:
                            total[k] += t[k]
                    inters.update(m['inters'])
                    states.update(m['states'])
        if violations and pending and len(violations) >= 1:
            if not any(i in pending for i in range(len(procs)) if i not in finished):
                break
            if len(violations) >= 2:
                break
    for p in procs:
        if p.poll() is None:
            p.kill()
        p.wait()
    crashed = [i for i, p in enumerate(procs) if i not in finished]
    wall = time.time() - start
    # -- violations
    confirmed = []
    violations.sort(key=lambda m: m['index'])
    for m in violations:
        path = save(pid, args.seed, m)
        sure = confirm(pid, path, m)
        if sure:
            confirmed.append((m, sure))
            break
    extra = check.evidence(total) if hasattr(check, 'evidence') else {}
    shown = probe(pid, check)
    # -- evidence
    hours = max(wall, 0.001) / 3600.0
    evidence = {
        'property': pid, 'tier': tier, 'seed': args.seed, 'level': check.level, 'wall_s': round(wall, 2),
        'violations': len(confirmed),
        'coverage': dict({
            'evaluations': total['runs'],
            'distinct_nontrivial': len(inters),
            'rule': check.rule,
            'samples': [clip(s) for s in samples[:2]],
            'cases': total['cases'],
            'simulated_runs': total['runs'],
            'alone_runs': total['solo_runs'],
            'simulated_runs_per_hour': int(total['runs'] / hours),
            'seeds_per_hour': int(total['cases'] / hours),
            'scheduling_points_passed': total['steps'],
            'context_switches': total['switches'],
            'distinct_interleavings': len(states),
            'interleaving_measure': 'distinct sequences of (code location, next caller) over all context switches of a run',
            'simulated_seconds': round(total['simtime'], 3),
            'simulated_time_note': check.time_note,
            'faults_injected': dict(sorted(total['faults'].items())),
            'counts': dict(sorted(total['counts'].items())),
            'known_findings_met': total['known'],
            'cases_looked_at_closer': total['closer'],
            'cases_derived_from_them': total['derived'],
            'cases_run_twice': total['rechecked'],
            'cases_not_repeatable': total['unrepeatable'],
            'case_errors': total['errors'],
            'workers': WORKERS,
            'components_real': check.real,
            'components_simulated': check.stub,
        }, **extra),
        'assumptions': check.assumptions,
    }
    where = os.environ.get('DST_EVIDENCE') or os.path.join(ROOT, 'evidence')
    os.makedirs(where, exist_ok=True)
    with open(os.path.join(where, pid + '.json'), 'w') as f:
        json.dump(evidence, f, indent=1, default=str)
        f.write('\n')
    print('%s: %d cases, %d simulated runs, %d steps, %d switches, %d distinct, faults %s, %.1fs' % (pid,
        total['cases'], total['runs'], total['steps'], total['switches'], len(inters),
        json.dumps(evidence['coverage']['faults_injected']), wall))
    for sig, text in shown:
        print('KNOWN-FINDING: property=%s %s' % (pid, text))
    if confirmed:
        m, path = confirmed[0]
        print(json.dumps({'violation': m['key'], 'detail': m['detail']}, indent=1, default=str)[:4000])
        print('VIOLATION property=%s replay=%s' % (pid, path))
        return 1
    if errors or crashed or hung or violations:
        for e in errors[:3]:
            print('ERROR in case %s of %s:\n%s' % (e['index'], pid, e['text']))
        for i in crashed[:2]:
            print('ERROR: worker %d ended early: %s' % (i, bufs[(i, 'err')][-2000:].decode('utf-8', 'replace')))
        for m in violations[:1]:
            print('ERROR: not reproduced: %s' % json.dumps(m, default=str)[:3000])
        return 2
    return 0


def clip(sample):
    text = json.dumps(sample, default=str)
    if len(text) <= 6000:
        return sample
    return {'index': sample.get('index'), 'clipped': text[:6000]}


def save(pid, seed, m):
    where = os.environ.get('DST_EVIDENCE') or os.path.join(ROOT, 'replays')
    os.makedirs(where, exist_ok=True)
    path = os.path.join(where, '%s-%s-%d.json' % (pid, seed, m['index']))
    doc = {'property': pid, 'seed': seed, 'index': m['index'], 'key': m['key'], 'detail': m['detail'],
        'case': m['case'], 'schedule': m['trace'], 'faults': m['fired'], 'history': m['history'],
        'original_case': m['original']}
    with open(path, 'w') as f:
        json.dump(doc, f, indent=1, default=str)
    return path


def confirm(pid, path, m):
    """Replays in a new process; falls back to replaying the history of the worker."""
    def again():
        p = subprocess.run(command(pid, '--replay', path), stdout=subprocess.PIPE, stderr=subprocess.PIPE,
            cwd=ROOT, timeout=600)
        return p.returncode == 1
    with open(path) as f:
        doc = json.load(f)
    if doc['history'] is None:
        if again():
            return path
        # it needs what ran before it in the same process
        doc['case'] = doc['original_case']
        doc['history'] = {'seed': doc['seed'], 'worker': doc['index'] % WORKERS, 'stride': WORKERS,
            'index': doc['index']}
    h = doc['history']
    indexes = list(range(h['worker'], h['index'] + 1, h['stride']))
    for k in (1, 2, 4, 8, 16, len(indexes)):
        h['only'] = indexes[-k:]
        with open(path, 'w') as f:
            json.dump(doc, f, indent=1, default=str)
        if again():
            return path
        if k >= len(indexes):
            break
    return None


def probe(pid, check):
    """Which of the listed findings are still there."""
    listed = findings(pid)
    if not listed:
        return []
    if not hasattr(check, 'probe'):
        return listed
    return [(sig, text) for sig, text in listed if check.probe(sig)]


def setup():
    # nothing to build: checks instrument the sources in memory on every run
    from dst import instrument, sched
    sched.patch_locks()
    instrument.load_library()
    print('ok: %d modules' % len(instrument.World().scheme.__dict__))
    return 0


def main():
    if sys.argv[1:] == ['--setup']:
        return setup()
    p = argparse.ArgumentParser()
    p.add_argument('property')
    p.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick')
    p.add_argument('--seed', default=os.environ.get('VERIF_SEED') or '1', type=int)
    p.add_argument('--count', type=int, default=0)
    p.add_argument('--budget', type=float, default=0)
    p.add_argument('--shrink', type=float, default=60)
    p.add_argument('--worker', type=int)
    p.add_argument('--stride', type=int, default=1)
    p.add_argument('--recheck', type=int, default=0)
    p.add_argument('--replay')
    args = p.parse_args()
    if args.worker is not None:
        return worker(args)
    if args.replay:
        return replay(args.replay)
    return coordinate(args)


if __name__ == '__main__':
    sys.exit(main())
