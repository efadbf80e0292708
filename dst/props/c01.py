from dst import gen
from dst.gen import chance, choice
from dst.props import common


class C01(common.Check):
    """Concurrent processing through shared schemas."""

    id = 'C01'
    repeats = True

    def generate(self, rng):
        if chance(rng, 0.25):
            return common.drill(rng, common.plan, choice(rng, [2, 3, 4]), [2, 4, 6])
        opt = gen.Options(refs=0.2, callbacks=choice(rng, [0, 0.15, 0.4]), kinds=('preprocessor',),
            depth=choice(rng, [1, 2, 3]))
        subs, specs = gen.schemas(rng, opt, choice(rng, [1, 1, 2]))
        pools = [[] for s in specs]
        tasks = []
        for t in range(choice(rng, [2, 2, 3, 4])):
            ops = []
            for i in range(choice(rng, [1, 2, 3, 4])):
                si = int(rng.random() * len(specs))
                ops.append(common.convert_op(rng, si, specs[si], bad=choice(rng, [0.1, 0.3]), formats=True,
                    pool=pools[si]))
            tasks.append(ops)
        return {'subs': subs, 'schemas': specs, 'tasks': tasks, 'plan': common.plan(rng)}
