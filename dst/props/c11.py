from dst import gen
from dst.gen import chance, choice
from dst.props import common, files
from dst.vals import enc


class C11(files.Files):
    """A file read returns the whole document or raises."""

    id = 'C11'
    about_writes = False

    def generate(self, rng):
        opt = gen.Options(leaves=gen.JSONABLE, structural=['sequence', 'tuple', 'map', 'structure'], callbacks=0,
            depth=2, poly=0.1)
        subs, more = gen.schemas(rng, opt, 1, 0)
        specs = [gen.XML_SPEC, gen.CSV_SPEC, gen.CSV_PATH] + more
        last = len(specs) - 1
        held, tasks, faults = [], [], []
        rate = choice(rng, [0, 0.3, 0.6])
        for t in range(choice(rng, [1, 1, 2])):
            ops, have = [], []
            for k in range(choice(rng, [1, 2, 3])):
                fmt = choice(rng, gen.FORMATS)
                p = files.path_for(rng, fmt, 't%df%d' % (t, k), 0.05)
                r = rng.random()
                if r < 0.25:
                    # written by the library first
                    o = files.write_op(rng, p, 't%dw%d' % (t, k), specs, 0, 0.25)
                    ops.append(o)
                    fmt = files.resolved(o) or fmt
                    have.append((p, fmt, o.get('s')))
                    continue
                text = choice(rng, gen.TEXTS_BAD[fmt] if chance(rng, 0.15) else gen.TEXTS_GOOD[fmt])
                if fmt in ('json', 'yaml') and chance(rng, 0.25):
                    text = '{"a": [%s]}' % ', '.join('"item %d of t%dk%d é"' % (n, t, k)
                        for n in range(choice(rng, [3, 40, 900])))
                elif fmt == 'csv' and chance(rng, 0.25):
                    text = '"a","n"\r\n' + ''.join('"row ü %d","%d"\r\n' % (n, n) for n in range(choice(rng, [9, 300])))
                elif fmt == 'structuredtext' and chance(rng, 0.25):
                    text = '[%s]' % ','.join('{k:item %d}' % n for n in range(choice(rng, [9, 300])))
                if chance(rng, 0.04):
                    # beyond the sizes in which anything reads a file at a time
                    many = choice(rng, [2400, 6000, 12000])
                    if fmt in ('json', 'yaml'):
                        fmt, text = 'json', '{"a": [%s]}' % ', '.join('"entry %d of é t%dk%d"' % (n, t, k) for n in range(many))
                        p = files.path_for(rng, 'json', 't%df%d' % (t, k), 0)
                        p = p if p.lower().endswith('.json') else p + '.json'
                    elif fmt == 'csv':
                        text = '"a","n"\r\n' + ''.join('"%s row ü %d","%d"\r\n'
                            % ('longer ' * 15, n, n) for n in range(many // 8 + 400))
                    elif fmt == 'urlencoded':
                        text = '&'.join('key%d=some+%svalue+%d%%C3%%A9' % (n, 'longer+' * 10, n)
                            for n in range(many // 8 + 700))
                data = text.encode('utf-8')
                if chance(rng, 0.04):
                    data = data[:len(data) // 2] + b'\xff' + data[len(data) // 2:]
                if '/' not in p and chance(rng, 0.92):
                    held.append([p, data.hex()])
                have.append((p, fmt, files.MAP.get(fmt)))
            for i in range(choice(rng, [1, 2, 3, 4])):
                p, fmt, s = choice(rng, have)
                if fmt in ('json', 'yaml', 'structuredtext', 'urlencoded'):
                    s = last if chance(rng, 0.5) else None
                elif s is None or s == last:
                    s = files.MAP.get(fmt, last)
                how = 'field' if s is not None and chance(rng, 0.5) else 'format'
                o = files.read_op(rng, p, 'r', specs, fmt, s, how)
                if chance(rng, 0.12) and how == 'format':
                    o['params'] = enc({'quiet': True})
                if chance(rng, 0.05):
                    o['path'] = 'absent' + p
                ops.append(o)
                if chance(rng, rate):
                    call = choice(rng, ['read', 'read', 'read', 'open', 'open', 'close'])
                    kind = choice(rng, {'read': ['EIO', 'EIO', 'short', 'short', 'interrupt', 'ESTALE'],
                        'open': ['ENOENT', 'ENOENT', 'EACCES', 'EMFILE', 'EIO', 'interrupt'], 'close': ['EIO']}[call])
                    faults.append([t, len(ops) - 1, call, choice(rng, [1, 1, 2, 2, 3, 4]), kind])
                    if kind == 'short':
                        faults[-1][3] = 0
                    elif call != 'read':
                        faults[-1][3] = 1
            tasks.append(ops)
        return {'subs': subs, 'schemas': specs, 'tasks': tasks, 'plan': common.plan(rng),
            'env': {'fs': {'files': held, 'faults': faults, 'bufsize': choice(rng, [1, 7, 64, 8192, 8192]),
                'readsize': choice(rng, [0, 0, 1, 3, 50])}}}
