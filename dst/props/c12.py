from dst import gen
from dst.gen import chance, choice
from dst.props import common, files
from dst.vals import enc


class C12(files.Files):
    """File operations release their handles and stay separate."""

    id = 'C12'
    handles = True

    def generate(self, rng):
        opt = gen.Options(leaves=gen.JSONABLE, structural=['sequence', 'tuple', 'map', 'structure'], callbacks=0,
            depth=2, poly=0.1)
        subs, more = gen.schemas(rng, opt, 1, 0)
        specs = [gen.XML_SPEC, gen.CSV_SPEC, gen.CSV_PATH] + more
        last = len(specs) - 1
        held, tasks, faults = [['bystander.json', b'{"untouched": true}'.hex()], ['bystander', b'x'.hex()]], [], []
        rate = choice(rng, [0, 0, 0.3, 0.6])
        for t in range(choice(rng, [1, 2, 2, 3, 4])):
            files_ = []
            for k in range(choice(rng, [1, 2])):
                # callers' files have similar names in the same directory
                fmt = choice(rng, gen.FORMATS)
                p = files.path_for(rng, fmt, '%sdoc%s' % ('t%d' % t, 'ab'[k]), 0.05)
                if '/' in p:
                    continue
                r = rng.random()
                if r < 0.6:
                    text = choice(rng, gen.TEXTS_BAD[fmt] if chance(rng, 0.1) else gen.TEXTS_GOOD[fmt])
                    held.append([p, text.encode('utf-8').hex()])
                files_.append([p, fmt, files.MAP.get(fmt)])
            if not files_:
                files_ = [['t%dx.json' % t, 'json', None]]
            ops = []
            for i in range(choice(rng, [1, 2, 3, 4])):
                f = choice(rng, files_)
                if chance(rng, 0.45):
                    o = files.write_op(rng, f[0], 'c%do%d' % (t, i), specs, choice(rng, [0.05, 0.3]))
                    f[1] = files.resolved(o) or f[1]
                    f[2] = o.get('s')
                else:
                    p, fmt, s = f
                    if s is None and fmt in ('xml', 'csv'):
                        s = files.MAP[fmt]
                    how = 'field' if s is not None and chance(rng, 0.4) else 'format'
                    o = files.read_op(rng, p, 'r', specs, fmt, s, how)
                    if chance(rng, 0.15):
                        # asked for in a format it is not in
                        files.address(rng, o, choice(rng, gen.FORMATS))
                ops.append(o)
                if chance(rng, rate):
                    write = o['op'] == 'write_file'
                    call = choice(rng, ['write' if write else 'read'] * 3 + ['open', 'close'])
                    faults.append([t, i, call, choice(rng, [1, 1, 2, 2, 3]), choice(rng, {
                        'write': ['ENOSPC', 'EIO', 'partial', 'short'], 'read': ['EIO', 'short', 'ESTALE'],
                        'open': ['EACCES', 'EMFILE', 'ENOENT'], 'close': ['EIO', 'ENOSPC']}[call])])
            tasks.append(ops)
        return {'subs': subs, 'schemas': specs, 'tasks': tasks, 'plan': common.plan(rng),
            'env': {'fs': {'files': held, 'faults': faults, 'bufsize': choice(rng, [1, 7, 64, 8192]),
                'readsize': choice(rng, [0, 0, 3, 50]), 'writesize': choice(rng, [0, 0, 5, 40])}}}
