"""Random histories of everything a project can do to its tables, with monitors evaluated after every step."""
import boot
from common import Violation, flush, seeded


def sig(op):
    if op['op'] == 'txn':
        return ('txn', op['end']) + tuple(sig(o) for o in op['ops'])
    if op['op'] in ('flush', 'rebuild'):
        return (op['op'],)
    out = (op['op'], op.get('m'), op.get('how') or op.get('act'))
    if 'vals' in op:
        out += tuple(sorted(op['vals']))
    if 'fs' in op:
        out += tuple(sorted(op['fs']))
    if 'f' in op:
        out += (op['f'], op.get('side'))
    if op['op'] == 'create':
        out += (len(op['rows']),)
    return out


def names(stale):
    return tuple(sorted(set('%s.%s' % (m.__name__, f) for m, _, f, _, _ in stale)))


class Monitors(object):
    """What is evaluated after a step; ``on`` selects the monitors of one property."""

    def __init__(self, w, res, on):
        self.w = w
        self.res = res
        self.on = on
        self.aggs = {}
        self.before_keys = None
        self.before_marks = None
        self.held = {}

    def before(self, op):
        w = self.w
        if 'key' in self.on or 'keyquiet' in self.on:
            self.before_keys = w.fingerprints()
        if 'agg' in self.on:
            self.aggs = w.aggregate_values()
        if 'precise' in self.on:
            self.before_deps = w.dependencies()
            self.marks = w.marks()
        if 'quiet' in self.on:
            self.before_rows = w.snapshot(markers=False)
            self.before_marks = sorted(w.markers(), key=repr)

    def after(self, op):
        for name in self.on:
            f = getattr(self, 'on_' + name, None)
            if f is not None:
                f(op)

    # C02
    def on_silent(self, op):
        w = self.w
        stale = w.stale()
        if not stale:
            self.res.trivial()
            return
        marked = w.marked()
        for m, pk, f, stored, want in stale:
            if (m, pk) not in marked:
                raise Violation("silent_staleness", "%s(%r).%s is %r, the function returns %r, and nothing records it"
                                % (m.__name__, pk, f, stored, want), op=op)
        self.res.note((w.case().__name__, sig(op), names(stale)), op=op, stale_and_recorded=names(stale))

    # C05
    def on_agg(self, op, inside=False):
        w = self.w
        wrong = w.wrong_aggregates()
        if wrong:
            m, pk, f, stored, want = wrong[0]
            raise Violation("wrong_aggregate", "%s(%r).%s is %r but %r rows/units are related" % (
                m.__name__, pk, f, stored, want), op=op, inside_transaction=inside)
        if inside:
            return
        now = w.aggregate_values()
        changed = tuple(sorted(set('%s.%s' % (k[0].__name__, k[2]) for k in now
                                   if k in self.aggs and self.aggs[k] != now[k])))
        new = tuple(sorted(set(k[0].__name__ for k in now if k not in self.aggs)))
        if changed or new:
            self.res.note((w.case().__name__, sig(op), changed, new), op=op, counters_changed=changed)
        else:
            self.res.trivial()

    # C07
    def on_key(self, op):
        w = self.w
        now = w.fingerprints()
        old = self.before_keys
        hit = set()
        for k in old:
            if k not in now:
                continue
            m, pk, f = k
            if old[k][1] != now[k][1] and old[k][2] == now[k][2]:
                if old[k][0] == now[k][0]:
                    raise Violation("key_kept", "%s(%r).%s did not change although what it depends on did" % (
                        m.__name__, pk, f), op=op, before=old[k][1][:400],
                                    after=now[k][1][:400])
                hit.add('%s.%s:dependency' % (m.__name__, f))
        o = w.saved
        if o is not None and op['op'] in ('update', 'noop') and op['how'] in ('save', 'replace', 'uoc'):
            for k in old:
                if k[0] is type(o) and k[1] == o.pk and k in now:
                    if old[k][0] == now[k][0]:
                        raise Violation("key_kept", "%s(%r).%s did not change when the object was saved" % (
                            k[0].__name__, k[1], k[2]), op=op)
                    hit.add('%s.%s:save' % (k[0].__name__, k[2]))
        if hit:
            self.res.note((w.case().__name__, sig(op), tuple(sorted(hit))), op=op, keys_changed=sorted(hit))
        else:
            self.res.trivial()

    # C08
    def on_keyquiet(self, op):
        w = self.w
        if op['op'] == 'txn' or op.get('act') == 'set_clear':
            # there and back again
            self.res.trivial()
            return
        now = w.fingerprints()
        old = self.before_keys
        seen = set()
        for k in old:
            if k not in now:
                continue
            if w.saved is not None and k[0] is type(w.saved) and k[1] == w.saved.pk:
                continue
            if op.get('m') == k[0].__name__ and k[1] in op.get('pks', ()):
                continue
            if k[2] in getattr(w.case(), 'GENERIC_KEYS', ()):
                # the triggers of generic relations are coarser: they look at both ends of a move for either type,
                # and on MySQL at the number of the object only
                if w.vendor == 'mysql' or 'object_id' in op.get('vals', ()):
                    continue
            if old[k][1] == now[k][1] and old[k][2] == now[k][2]:
                if old[k][0] != now[k][0]:
                    raise Violation("key_changed", "%s(%r).%s changed although nothing it depends on did" % (
                        k[0].__name__, k[1], k[2]), op=op)
                seen.add('%s.%s' % (k[0].__name__, k[2]))
        if seen:
            self.res.note((w.case().__name__, sig(op), tuple(sorted(seen))), op=op, keys_kept=sorted(seen))
        else:
            self.res.trivial()

    # C10
    def on_immediate(self, op):
        w = self.w
        o = w.saved
        if o is None or op['op'] == 'txn':
            self.res.trivial()
            return
        m = type(o)
        fresh = w.get(m, o.pk)
        done = []
        for fn in w.callbacks_of(m):
            f = m._meta.get_field(fn.__name__)
            stored, want = w.expected(m, fn, fresh)
            if stored != want:
                raise Violation("not_immediate", "%s(%r).%s is %r right after save(), the function returns %r" % (
                    m.__name__, o.pk, fn.__name__, stored, want), op=op)
            if f.concrete and not f.many_to_many:
                mine = getattr(o, f.attname)
                if mine != stored:
                    raise Violation("not_immediate", "%s(%r).%s is %r on the saved object and %r in the database" % (
                        m.__name__, o.pk, fn.__name__, mine, stored), op=op)
                if f.is_relation and f.is_cached(o):
                    obj = getattr(o, f.name)
                    if (getattr(obj, f.target_field.attname) if obj is not None else None) != mine:
                        raise Violation("not_immediate", "%s(%r).%s gives object %r for key %r" % (
                            m.__name__, o.pk, fn.__name__, obj, mine), op=op)
            done.append(fn.__name__)
        for f, _ in w.aggs_of(m):
            if getattr(o, f) != getattr(fresh, f):
                raise Violation("not_immediate", "%s(%r).%s is %r on the saved object and %r in the database" % (
                    m.__name__, o.pk, f, getattr(o, f), getattr(fresh, f)), op=op)
        if done:
            vals = tuple(sorted((fn.__name__, repr(getattr(fresh, m._meta.get_field(fn.__name__).attname))[:60])
                                for fn in w.callbacks_of(m) if not m._meta.get_field(fn.__name__).many_to_many))
            self.res.note((w.case().__name__, sig(op), vals), op=op, fields_right_after_save=done)
        else:
            self.res.trivial()

    # C23
    def on_form(self, m, form):
        w = self.w
        for f in form.base_fields:
            if f in w.derived[m]:
                raise Violation("offered", "a form for %s offers %s" % (m.__name__, f))
        self.res.note(('form', m.__name__, tuple(form.base_fields)), form_for=m.__name__, offers=list(form.base_fields))

    def on_byhand(self, op):
        w = self.w
        o = w.saved
        if not (op.get('spoil') or op['op'] == 'form'):
            self.res.trivial()
            return
        stale = w.stale()
        marked = w.marked()
        for m, pk, f, stored, want in stale:
            if (m, pk) not in marked or o is not None and type(o) is m and o.pk == pk:
                raise Violation("set_by_hand", "%s(%r).%s is %r, the function returns %r" % (
                    m.__name__, pk, f, stored, want), op=op)
        wrong = w.wrong_aggregates()
        for m, pk, f, stored, want in wrong:
            raise Violation("set_by_hand", "%s(%r).%s is %r but %r rows/units are related" % (
                m.__name__, pk, f, stored, want), op=op)
        for m, lst in w.keys.items():
            for f, _ in lst:
                if m._base_manager.using(w.using).filter(**{f: 4711}).exists():
                    raise Violation("set_by_hand", "%s.%s is what was set by hand" % (m.__name__, f), op=op)
        self.res.note((w.case().__name__, sig(op), names(stale)), op=op)

    # C20: called by the workload whenever a block, at any depth, has been rolled back
    def rolled_back(self, before, op):
        from engine import diff
        w = self.w
        now = w.snapshot()
        if now != before:
            raise Violation("rollback_trace", "a rolled back transaction left something behind", op=op,
                            diff=diff(before, now))
        if op['ops']:
            self.res.note((w.case().__name__, sig(op)), op=op)

    # C21: what is recorded has a reason
    def on_precise(self, op):
        w = self.w
        if op['op'] in ('txn', 'load', 'flush', 'rebuild') or op.get('act') == 'set_clear':
            # there and back again
            self.res.trivial()
            return
        deps, marks = w.dependencies(), w.marks()
        generic = op['op'] == 'delete' or (op.get('m') and w.gfks(w.models[op['m']]))
        quiet = set()
        for k in deps:
            if k not in self.before_deps:
                continue
            if deps[k] == self.before_deps[k]:
                if marks[k] > self.marks[k]:
                    if generic and k[0].__name__ in getattr(w.case(), 'GENERIC_MODELS', ()):
                        # the triggers of generic relations are coarser: they look at both ends of a move for either
                        # type, and on MySQL at the number of the object only
                        if w.vendor == 'mysql' or 'object_id' in op.get('vals', ()) or 'thing' in op.get('vals', ()):
                            continue
                    raise Violation("marked_for_nothing", "%s(%r) was recorded although nothing it depends on changed"
                                    % (k[0].__name__, k[1]), op=op)
                quiet.add(k[0].__name__)
        if quiet:
            self.res.note((w.case().__name__, 'precise', sig(op), tuple(sorted(quiet))), op=op,
                          not_recorded=sorted(quiet))
        else:
            self.res.trivial()

    # C21
    def on_quiet(self, op):
        w = self.w
        rows = w.snapshot(markers=False)
        marks = sorted(w.markers(), key=repr)
        if op['op'] in ('txn', 'load') or op.get('act') == 'set_clear' or rows != self.before_rows:
            self.res.trivial()
            return
        if marks != self.before_marks:
            raise Violation("marked_for_nothing", "an operation that changed no row recorded work", op=op,
                            new=[x for x in marks if x not in self.before_marks][:5])
        self.res.note((w.case().__name__, sig(op)), op=op)

    # C09
    def on_cached(self, op):
        w = self.w
        if w.rng.random() < 0.15:
            from django.core.cache import cache
            cache.clear()
            w.cov['cache_forgot'] += 1
        seen = []
        for m, fns in w.cached.items():
            if not fns:
                continue
            for o in w.rows(m):
                how = w.rng.choice(['load', 'load', 'refresh', 'refresh', 'defer', 'only'])
                pk = o.pk
                if how == 'refresh':
                    # an object from earlier that may hold old related objects
                    o = self.held.get((m, pk), o)
                    o.refresh_from_db()
                elif how == 'defer':
                    o = m._base_manager.using(w.using).defer(*[fn.__name__ for fn in fns]).get(pk=pk)
                elif how == 'only':
                    o = m._base_manager.using(w.using).only('pk').get(pk=pk)
                w.cov['cached_read:' + how] += 1
                for fn in fns:
                    got = getattr(o, fn.__name__)
                    want = fn(w.get(m, pk))
                    w.cov['cached_values_compared'] += 1
                    if got != want:
                        raise Violation("cached_wrong", "%s(%r).%s gives %r, the function returns %r" % (
                            m.__name__, pk, fn.__name__, got, want), op=op, read_by=how)
                    seen.append((m.__name__, fn.__name__, repr(got)))
                if w.rng.random() < 0.3:
                    self.held[(m, pk)] = o
                    for f in m._meta.fields:
                        if f.is_relation:
                            getattr(o, f.name)
        if seen:
            self.res.note((w.case().__name__, sig(op), tuple(sorted(seen))), op=op, values=sorted(seen)[:6])
        else:
            self.res.trivial()


def do_flush(w, res, on):
    """flush() with the monitors that belong to it."""
    from engine import diff
    stale = w.stale() if 'flush' in on else []
    base = w.snapshot(base_only=True) if 'intrude' in on or 'flush' in on else None
    pending = len(w.markers())
    flush(w)
    if 'flush' in on:
        left = w.markers()
        if left:
            raise Violation("flush_left", "flush() returned with work recorded", markers=left[:5])
        for m, pk, f, stored, want in w.stale():
            raise Violation("flush_stale", "%s(%r).%s is %r after flush(), the function returns %r" % (
                m.__name__, pk, f, stored, want))
        wrong = w.wrong_aggregates()
        if wrong and 'agg' not in on:
            raise Violation("flush_stale", "counter wrong after flush(): %r" % (wrong[0][1:],))
        if stale:
            res.note((w.case().__name__, names(stale)), repaired=names(stale), markers=pending)
        else:
            res.trivial()
    if 'intrude' in on:
        now = w.snapshot(base_only=True)
        if now != base:
            raise Violation("flush_intrudes", "flush() changed columns that are not denormalized", diff=diff(base, now))
        full = w.snapshot()
        writes = []
        from django.db import connection

        def watch(execute, sql, params, many, context):
            if sql.split(None, 1)[0].upper() in ('INSERT', 'UPDATE', 'DELETE', 'REPLACE'):
                writes.append(sql)
            return execute(sql, params, many, context)
        with connection.execute_wrapper(watch):
            flush(w)
        if writes:
            raise Violation("flush_not_idempotent", "a second flush() wrote to the database", sql=writes[:3])
        again = w.snapshot()
        if again != full:
            raise Violation("flush_not_idempotent", "a second flush() changed rows", diff=diff(full, again))
        if pending:
            res.note((w.case().__name__, pending, repr(now)[:3000]), markers=pending)
        else:
            res.trivial()


def run(cfg, res):
    boot.setup()
    from engine import World, WEIGHTS
    rng = seeded(cfg['seed'], cfg['scenario'], cfg['case'], cfg.get('stream', cfg['backend']))
    w = World(rng, max_rows=cfg.get('rows', 5))
    on = cfg['oracles']
    # what an object linked to itself gets from its own row is older than what is being saved
    w.no_loops = 'immediate' in on
    mon = Monitors(w, res, on)
    if 'agg' in on:
        w.on_step = lambda: mon.on_agg(None, inside=True)
    if 'rollback' in on:
        w.on_rollback = mon.rolled_back
    if 'byhand' in on:
        w.on_form = mon.on_form
    w.spoil = cfg.get('spoil', w.spoil)
    if 'cached' in on:
        # whatever is loaded inside a transaction may be cached, also if it is rolled back
        w.on_step = lambda: [w.rows(m) for m in w.cached]
    kinds = None
    if cfg.get('weights'):
        kinds = dict((k, v) for k, v in list(WEIGHTS.items()) + list(cfg['weights'].items()))
        kinds.update(cfg['weights'])
    pflush = cfg.get('pflush', 0.3)
    per = cfg.get('per', 60)
    for i in range(cfg['n']):
        if i and i % per == 0:
            w.wipe()
            res.trace.clear()
            res.cov['histories'] += 1
        op = w.gen(kinds)
        res.trace.append(op)
        mon.before(op)
        w.apply(op)
        res.cov['steps'] += 1
        mon.after(op)
        if rng.random() < pflush:
            res.trace.append({'op': 'flush'})
            do_flush(w, res, on)
    res.cov['histories'] += 1
    do_flush(w, res, on)
    res.cov.update(w.cov)
