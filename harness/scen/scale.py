"""Deep chains and many rows: trees of one model whose values depend on parents and children, written in bulk, changed at
the leaves, at the root and by moving branches."""
import boot
from common import Violation, flush, seeded
from scen.history import do_flush


def shape(rng, n, kind):
    """Parents (by index) of n nodes."""
    if kind == 'chain':
        return [None] + list(range(n - 1))
    if kind == 'star':
        return [None] + [0] * (n - 1)
    if kind == 'comb':
        return [None] + [i - 1 if i % 2 else max(i - 2, 0) for i in range(1, n)]
    return [None] + [rng.randrange(i) for i in range(1, n)]


def run(cfg, res):
    boot.setup()
    from denorm.models import DirtyInstance
    from django.db import connection
    from engine import World
    rng = seeded(cfg['seed'], 'scale', cfg.get('stream', cfg['backend']))
    w = World(rng, max_rows=5)
    Node = w.models['Node']

    def changed(what, **detail):
        res.trace.append(dict(detail, op=what))
        stale = w.stale()
        depth = max([len(p.split('/')) for p in Node.objects.values_list('path', flat=True)] or [0])
        pending = len(w.markers())
        do_flush(w, res, ['flush'])
        res.cov['scale:' + what] += 1
        res.cov['deepest'] = max(res.cov['deepest'], depth)
        if stale:
            res.note((what, len(stale), depth, pending), change=what, out_of_date=len(stale), depth=depth, markers=pending)

    for i in range(cfg['n']):
        w.wipe()
        res.trace.clear()
        kind = ('chain', 'tree', 'comb', 'star')[i % 4]
        n = rng.randint(8, cfg.get('depth', 22))
        parents = shape(rng, n, kind)
        ids = list(range(1, n + 1))
        if rng.random() < 0.5:
            rng.shuffle(ids)
        # no value is computed by these
        with connection.cursor() as c:
            for k in range(n):
                c.execute("INSERT INTO vcase_node (id, title, parent_id, path, weight) VALUES (%s, %s, %s, '', 0)",
                          [ids[k], 't%d' % k, None if parents[k] is None else ids[parents[k]]])
        changed('insert', shape=kind, n=n)
        Node.objects.filter(pk=ids[-1]).update(title='leaf')
        changed('leaf', shape=kind)
        Node.objects.filter(pk=ids[0]).update(title='root')
        changed('root', shape=kind)
        # all at once, no value right any more
        Node.objects.update(title='all')
        changed('all', shape=kind)
        # a branch elsewhere, where it is no descendant of itself
        k = rng.randrange(1, n)
        below = set([k])
        for j in range(k + 1, n):
            if parents[j] in below:
                below.add(j)
        to = rng.choice([j for j in range(n) if j not in below] + [None])
        Node.objects.filter(pk=ids[k]).update(parent_id=None if to is None else ids[to])
        changed('move', shape=kind)
        leaves = [j for j in range(n) if j not in parents and j != k]
        if leaves:
            Node.objects.filter(pk=ids[rng.choice(leaves)]).delete()
            changed('delete', shape=kind)

    # one chain that needs as many rounds as it has nodes
    w.wipe()
    res.trace.clear()
    deep = cfg.get('deep', 150)
    with connection.cursor() as c:
        for k in range(deep):
            c.execute("INSERT INTO vcase_node (id, title, parent_id, path, weight) VALUES (%s, %s, %s, %s, %s)",
                      [k + 1, 'c', k or None, '/c' * (k + 1), deep - 1 - k])
    DirtyInstance.objects.all().delete()
    if w.stale():
        raise RuntimeError("the chain is not as it should be")
    Node.objects.filter(pk=1).update(title='r')
    changed('long chain, root', n=deep)
    with connection.cursor() as c:
        c.execute("INSERT INTO vcase_node (id, title, parent_id, path, weight) VALUES (%s, 'e', %s, '', 0)", [deep + 1, deep])
    changed('long chain, leaf', n=deep)

    # more rows than are fetched at once
    w.wipe()
    res.trace.clear()
    Node.objects.bulk_create([Node(title='n') for _ in range(cfg['many'])], batch_size=200)
    res.trace.append({'op': 'many'})
    for step in ('insert', 'update'):
        if step == 'update':
            Node.objects.update(title='x')
        pending = len(w.markers())
        if pending < cfg['many']:
            raise Violation("silent_staleness", "%d rows written but only %d recorded" % (cfg['many'], pending))
        flush(w)
        if w.markers():
            raise Violation("flush_left", "flush() returned with work recorded")
        bad = Node.objects.exclude(path='/n' if step == 'insert' else '/x').count()
        if bad:
            raise Violation("flush_stale", "%d of %d rows are wrong after flush()" % (bad, cfg['many']))
        res.note(('many', step, cfg['many']), rows=cfg['many'], markers=pending)
        res.cov['many_rows_flushed'] += cfg['many']
    res.cov.update(w.cov)

