from dst import gen
from dst.gen import chance, choice
from dst.props import common, files

KINDS = {'open': ['EACCES', 'EMFILE', 'ENOSPC', 'EIO', 'EROFS', 'crash', 'interrupt'],
    'write': ['ENOSPC', 'EIO', 'partial', 'short', 'short', 'crash', 'torn', 'EDQUOT', 'interrupt'],
    'close': ['EIO', 'ENOSPC', 'crash', 'EDQUOT'],
    'truncate': ['EIO', 'crash'], 'fsync': ['EIO', 'crash'], 'replace': ['EIO', 'crash'], 'rename': ['EIO', 'crash']}


class C10(files.Files):
    """A file write either completes or fails loudly."""

    id = 'C10'
    about_reads = False

    def generate(self, rng):
        opt = gen.Options(leaves=gen.JSONABLE, structural=['sequence', 'tuple', 'map', 'structure'], callbacks=0,
            depth=2, poly=0.1)
        subs, more = gen.schemas(rng, opt, 1, 0)
        specs = [gen.XML_SPEC, gen.CSV_SPEC, gen.CSV_PATH] + more
        held, tasks, faults, at = [], [], [], []
        rate = choice(rng, [0, 0.3, 0.6])
        crashes = chance(rng, 0.4)
        for t in range(choice(rng, [1, 1, 1, 2])):
            paths = []
            for k in range(choice(rng, [1, 1, 2])):
                p = files.path_for(rng, choice(rng, gen.FORMATS), 't%df%d' % (t, k))
                paths.append(p)
                if '/' not in p and chance(rng, 0.75):
                    held.append([p, files.small_bytes(rng).encode('utf-8').hex()])
            ops = []
            for i in range(choice(rng, [1, 2, 3, 4, 5])):
                ops.append(files.write_op(rng, choice(rng, paths), 'c%do%d' % (t, i), specs, choice(rng, [0.05, 0.4])))
                if chance(rng, rate):
                    call = choice(rng, ['write', 'write', 'write', 'write', 'open', 'close', 'close', 'replace', 'fsync'])
                    kind = choice(rng, KINDS[call])
                    if not crashes and kind in ('crash', 'torn'):
                        kind = 'EIO'
                    faults.append([t, i, call, choice(rng, [1, 1, 1, 2, 2, 3, 5]), kind])
                    if kind == 'short':
                        faults[-1][3] = choice(rng, [0, 1, 2])
                elif chance(rng, 0.08):
                    at.append([t, i, rng.random(), choice(rng, ['KeyboardInterrupt', 'Cancelled', 'SystemExit'])])
            tasks.append(ops)
        return {'subs': subs, 'schemas': specs, 'tasks': tasks, 'plan': common.plan(rng), 'at': at,
            'env': {'fs': {'files': held, 'faults': faults, 'bufsize': choice(rng, [1, 7, 64, 64, 8192]),
                'writesize': choice(rng, [0, 0, 5, 40])}}}
