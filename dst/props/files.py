"""What the checks of file reads and writes share."""
import os

from dst import case as casemod
from dst import gen
from dst.gen import chance, choice
from dst.props import common
from dst.vals import enc

MAP = {'xml': 0, 'csv': 1, 'path': 2}
NAMES = {}
for _name, _keys in gen.KEYS.items():
    for _key in _keys:
        NAMES[_key] = _name
EXTENSIONS = {'.json': 'json', '.yaml': 'yaml', '.yml': 'yaml', '.csv': 'csv', '.xml': 'xml'}
UNKNOWN = ['nope', '.nope', 'application/nope', 'JSON', 'class:Format']
ODD = ['doc', 'doc.txt', 'doc.', 'dir.json/doc', '.json', 'doc.json.bak', 'doc.jsonx']


def resolved(o):
    """The format a file operation is to use, or None when it names no known one."""
    fmt = o.get('fmt')
    if fmt:
        return NAMES.get(fmt)
    how = o.get('how', 'field')
    if how not in ('field', 'format'):
        return how
    return EXTENSIONS.get(os.path.splitext(o['path'])[-1].lower())


def path_for(rng, fmt, stem, odd=0.1):
    """A path, mostly with an extension of the format."""
    if chance(rng, odd):
        return stem + choice(rng, ODD)
    found = [e for e, n in EXTENSIONS.items() if n == fmt]
    if not found or chance(rng, 0.15):
        found = list(EXTENSIONS)
    e = choice(rng, found)
    if chance(rng, 0.2):
        e = choice(rng, [e.upper(), e[:2] + e[2:].upper(), '.old' + e, '.xml' + e])
    return stem + e


def address(rng, o, fmt, unknown=0.05):
    """Makes operation ``o`` say by which format its file is to be read or written."""
    own = resolved(dict(o, fmt=None, how='format'))
    how = o.get('how', 'field')
    if chance(rng, unknown):
        o['fmt'] = choice(rng, UNKNOWN)
        return
    if own == fmt and chance(rng, 0.45):
        return
    if how == 'format' and chance(rng, 0.35):
        o['how'] = fmt
        return
    if how == 'format' and chance(rng, 0.2):
        o['how'] = choice(rng, gen.FORMATS)
    o['fmt'] = choice(rng, gen.KEYS[fmt])


def write_op(rng, path, tag, specs, bad=0.15, big=0.1):
    """A file write; ``specs`` are the schemas of the case, the last one random."""
    last = len(specs) - 1
    if chance(rng, 0.35):
        fmt = choice(rng, ['json', 'yaml', 'json', 'yaml', 'structuredtext', 'xml', 'csv'])
        s = MAP[fmt] if fmt in ('xml', 'csv') else last
        if s == last:
            v = gen.value(rng, specs[s], 'n', bad)
        else:
            v = gen.xml_content(rng, tag) if fmt == 'xml' else gen.csv_content(rng, tag)
            if fmt == 'csv':
                for row in v:
                    row.pop('d', None)
            if chance(rng, bad):
                v = choice(rng, [{'n': 'word'}, [{'n': 'word'}], 5, {'zz': 1}, [{'zz': 1}]])
        o = {'op': 'write_file', 'how': 'field', 's': s, 'v': enc(v), 'path': path}
    else:
        while True:
            fmt, o = gen.codec_op(rng, MAP, tag, bad)
            if o['op'] == 'format_serialize' and not any(n == 'path' for n, v in o.get('params', {}).get('%d', ())):
                break
        o = dict(o, op='write_file', how='format', path=path)
        del o['fmt']
        if chance(rng, 0.04) and fmt in ('json', 'yaml', 'structuredtext', 'urlencoded'):
            # half of a character, which no file can hold
            o['v'] = enc(choice(rng, [{'a': tag, 'b': 'half \ud800'}, {'a': tag * 900, 'b': '\udfff'}]))
        elif chance(rng, big) and fmt in ('json', 'yaml', 'structuredtext'):
            times = choice(rng, [30, 700, 2500])
            if fmt != 'yaml' and chance(rng, 0.2):
                times = choice(rng, [7000, 9000, 20000])
            o['v'] = enc({'big': gen.Raw({'%rep': [tag + ' wörd ', times]}), 'end': tag})
        elif fmt == 'urlencoded' and chance(rng, big):
            o['v'] = enc({'big': gen.Raw({'%rep': [tag + ' wörd ', choice(rng, [700, 7000, 20000])]}), 'end': tag})
    address(rng, o, fmt)
    return o


def read_op(rng, path, tag, specs, fmt, s=None, how=None):
    o = {'op': 'read_file', 'how': how or 'format', 'path': path}
    if s is not None:
        o['s'] = s
    if fmt == 'structuredtext' and chance(rng, 0.3):
        o['params'] = enc({'parse_numbers': True})
    address(rng, o, fmt)
    return o


def small_bytes(rng):
    return choice(rng, ['', 'x', 'old content\n', '{"old": [1, 2, 3]}', 'old ' * 40, 'old ' * 2600, 'ünï\n'])


class Files(common.Check):
    quick = 1600
    stub = common.Check.stub + ['storage device (dst/fsim.py: descriptors of real scratch files behind a faulty raw device)']

    def evaluate(self, case, log=False):
        ev = common.Evaluation(case)
        self.cache = {}
        b = casemod.baselines(case) if case.get('at') else None
        if b is not None:
            ev.solo_runs += len(b.ops)
            case = self.place(case, b, ev)
            ev.case = case
        res = casemod.run_together(case, None, 2000 * len(case['tasks']), log=log)
        ev.note(res)
        ev.res, ev.b = res, b
        if res.fs.fired or res.run.nswitch:
            ev.nontrivial = True
        self.judge(case, b, res, ev)
        return ev

    def reference(self, case, tid, i, o, ev):
        """('text', text) / ('exc', ...) for a document rendered or decoded alone, without storage."""
        key = (tid, i, o.get('bytes'))
        if key not in self.cache:
            bare = dict((k, v) for k, v in o.items() if k not in ('path', 'fmt'))
            if 'params' in bare:
                bare['params'] = {'%d': [x for x in bare['params']['%d'] if x[0] != 'quiet']}
            alone = casemod.run_alone(dict(case, env={}), [bare], 0, [0])
            ev.solo_runs += 1
            self.cache[key] = alone.outcome + (alone.data['raw'].get(0),)
        return self.cache[key]

    def rendered(self, case, tid, i, o, ev):
        """The bytes a write is to leave behind; None when it has to fail."""
        name = resolved(o)
        if name is None:
            return None
        got = self.reference(case, tid, i, dict(o, op='render_document', name=name), ev)
        if got[0] == 'ok' and isinstance(got[2], str):
            try:
                return got[2].encode('utf-8')
            except UnicodeEncodeError:
                pass
        return None

    def decoded(self, case, tid, i, o, content, ev):
        """The outcome a read of ``content`` is to have; None when it has to fail in some way."""
        name = resolved(o)
        if content is None or name is None:
            return None
        got = self.reference(case, tid, i, dict(o, op='decode_document', name=name, bytes=content.hex()), ev)
        return got[:2] if got[0] == 'ok' else None

    def judge(self, case, b, res, ev):
        initial = dict((n, bytes.fromhex(d)) for n, d in case['env']['fs'].get('files', ()))
        hit = {}
        for tid, i, stepno, name in case.get('interrupts', ()):
            hit.setdefault((tid, i), []).append(name)
        touched = set()
        model = dict(initial)
        for tid, ops in enumerate(case['tasks']):
            for i, o in enumerate(ops):
                got = res.outcomes[tid][i]
                if got is None and not res.crashed or got is not None and got[0] == 'missing':
                    continue
                if o['op'] == 'write_file':
                    touched.add(o['path'])
                    self.judge_write(case, tid, i, o, got, model, res, hit.get((tid, i), ()), ev)
                elif o['op'] == 'read_file':
                    self.judge_read(case, tid, i, o, got, model, res, hit.get((tid, i), ()), ev)
                if got is None or res.crashed and (tid, i) not in res.after:
                    break
        for n in set(list(initial) + list(res.files)):
            if n not in touched and res.files.get(n) != initial.get(n):
                if res.crashed and n not in initial:
                    continue
                ev.add('other-file', file=n, before=brief(initial.get(n)), after=brief(res.files.get(n)))
        if self.handles and res.leaks:
            tid, i, left = res.leaks[0]
            if (tid, i) not in hit:
                ev.add('leak', task=tid, op=i, what=case['tasks'][tid][i]['op'], left_open=left,
                    outcome=common.short(res.outcomes[tid][i]), faults=res.fs.failures.get((tid, i)))

    handles = False
    about_writes = about_reads = True

    def judge_write(self, case, tid, i, o, got, model, res, hit, ev):
        path = o['path']
        old = model.get(path)
        ended = (tid, i) in res.after
        now = res.after[(tid, i)] if ended else res.files.get(path)
        text = self.rendered(case, tid, i, o, ev)
        failed = [f for f in res.fs.failures.get((tid, i), ()) if True]
        info = dict(task=tid, op=i, format=resolved(o), how=o.get('how', 'field'), path=path, outcome=common.short(got, 300),
            faults=failed, interrupts=list(hit), before=brief(old), after=brief(now),
            document=brief(text) if text is not None else 'cannot be rendered')
        model[path] = now
        if now is None:
            model.pop(path, None)
        if not self.about_writes:
            return
        ev.count('writes_judged')
        if text is None:
            if old is not None and now != old:
                ev.add('write:damaged', **info)
            if ended and got[0] == 'ok':
                ev.add('write:accepted', **info)
            return
        partial = any(f.endswith(':partial') for f in failed)
        if not ended or failed or hit:
            ev.count('faulty_writes_judged')
            if now != old and not partial and (now is None or not text.startswith(now)):
                ev.add('write:not-prefix', **info)
            if ended and got[0] == 'ok':
                if failed:
                    ev.add('write:silent', **info)
                elif now != text:
                    ev.add('write:content', **info)
            elif ended and not failed and hit and got[0] not in ('base', 'exc'):
                ev.add('write:lost-interrupt', **info)
            return
        if got[0] != 'ok':
            if self.natural(path, got):
                return
            ev.add('write:raised', **info)
        elif now != text:
            ev.add('write:content', **info)

    def natural(self, path, got):
        """Directories that do not exist, and names that are directories."""
        return '/' in path and got[0] == 'exc' and got[1].startswith('oserr:')

    def judge_read(self, case, tid, i, o, got, model, res, hit, ev):
        if not self.about_reads:
            return
        path = o.get('path')
        content = model.get(path) if path else None
        failed = res.fs.failures.get((tid, i), ())
        wanted = self.decoded(case, tid, i, o, content, ev)
        info = dict(task=tid, op=i, format=resolved(o) if path else None, how=o.get('how', 'field'), path=path,
            outcome=common.short(got, 300), faults=list(failed), content=brief(content), expected=common.short(wanted, 300))
        ev.count('reads_judged')
        if got is None:
            return
        if failed or hit:
            ev.count('faulty_reads_judged')
            if got[0] == 'ok' and (failed or tuple(got) != wanted):
                if failed == ['open:ENOENT'] and self.quiet(o) and got[1] == 'False':
                    return
                ev.add('read:silent', **info)
            return
        if content is None and self.quiet(o):
            if tuple(got) != ('ok', 'False'):
                ev.add('read:quiet', **info)
        elif wanted is None:
            if got[0] != 'exc':
                ev.add('read:accepted', **info)
        elif tuple(got) != wanted:
            ev.add('read:differs', **info)

    @staticmethod
    def quiet(o):
        return bool(o.get('params')) and ['quiet', True] in o['params'].get('%d', ())


def brief(b):
    if b is None:
        return None
    text = b.decode('utf-8', 'replace')
    return text if len(text) <= 300 else text[:200] + '... (%d characters) ...' % len(text) + text[-60:]
