"""Damage every denormalized value, with and without triggers in place, then rebuild everything, one application, one model
or one field, and compare."""
import contextlib
import io

import boot
from common import Violation, bounded, flush, rows_total, seeded
from scen.history import names


def run(cfg, res):
    boot.setup()
    import denorm
    from denorm import denorms
    from denorm.models import DirtyInstance
    from django.core.management import call_command
    from django.db import connection, models
    from engine import World, diff
    rng = seeded(cfg['seed'], 'rebuild', cfg['case'], cfg.get('stream', cfg['backend']))
    w = World(rng, max_rows=cfg.get('rows', 5))
    qn = connection.ops.quote_name
    unrelated = [w.models[n] for n in cfg.get('unrelated', ())]

    def garbage(m, f):
        if isinstance(f, models.ForeignKey):
            cand = list(f.remote_field.model._base_manager.order_by("pk").values_list(f.target_field.attname, flat=True))
            return rng.choice(cand + ([None] if f.null else [])) if cand or f.null else 0
        if isinstance(f, (models.IntegerField, models.BigIntegerField)):
            return rng.choice([0, 1, 9, 77])
        if f.null and rng.random() < 0.4:
            return None
        if isinstance(f, (models.CharField, models.TextField)):
            return rng.choice(['', 'wrong', '%s', '~'])[:f.max_length or 99]
        return w.value(m, f)

    def damage():
        """Overwrite some derived values behind everybody's back."""
        n = 0
        for m in w.models.values():
            fields = [m._meta.get_field(fn.__name__) for fn in w.callbacks[m]]
            fields += [m._meta.get_field(f) for f, _ in w.aggs[m]]
            for f in fields:
                if isinstance(f, models.ManyToManyField):
                    t = f.remote_field.through
                    if rng.random() < 0.7:
                        if rng.random() < 0.5:
                            t._base_manager.all()._raw_delete('default')
                        for pk in w.pks(m):
                            cand = w.pks(f.remote_field.model)
                            if cand and rng.random() < 0.5:
                                kw = {f.m2m_field_name() + '_id': pk, f.m2m_reverse_field_name() + '_id': rng.choice(cand)}
                                if not t._base_manager.filter(**kw).exists():
                                    t._base_manager.create(**kw)
                        n += 1
                    continue
                for pk in w.pks(m):
                    if rng.random() < 0.6:
                        w.raw_update(m, [pk], {f.attname: garbage(m, f)})
                        n += 1
        return n

    for i in range(cfg['n']):
        # counters that are still damaged could not be decremented
        denorms.drop_triggers()
        w.wipe()
        denorms.install_triggers()
        res.trace.clear()
        w.populate(rng.randint(1, 2))
        for _ in range(rng.randint(0, 6)):
            op = w.gen()
            res.trace.append(op)
            w.apply(op)
        flush(w)
        mode = rng.choice(['with triggers', 'without triggers', 'history without triggers', 'markers lost'])
        res.trace.append(mode)
        if mode == 'markers lost':
            for _ in range(rng.randint(3, 8)):
                op = w.gen()
                res.trace.append(op)
                w.apply(op)
            DirtyInstance.objects.all()._raw_delete('default')
        elif mode == 'with triggers':
            damage()
            if rng.random() < 0.7:
                DirtyInstance.objects.all()._raw_delete('default')
        else:
            denorms.drop_triggers()
            if mode == 'history without triggers':
                for _ in range(rng.randint(3, 8)):
                    op = w.gen()
                    res.trace.append(op)
                    w.apply(op)
            damage()
            denorms.install_triggers()
        scope = {}
        r = rng.random()
        models_ = [m for m in w.models.values() if w.callbacks[m] or w.aggs[m]]
        if r < 0.4:
            pass
        elif r < 0.5:
            scope = {'model_name': 'vcase'}
        else:
            m = rng.choice(models_)
            scope = {'model_name': rng.choice([m.__name__, 'vcase.' + m.__name__])}
        if r > 0.7:
            scope['field_name'] = rng.choice([fn.__name__ for fn in w.callbacks[m]] + [f for f, _ in w.aggs[m]])
            if rng.random() < 0.3:
                del scope['model_name']

        def inside(m, f):
            if 'model_name' in scope and scope['model_name'] not in ('vcase', m.__name__, 'vcase.' + m.__name__):
                return False
            return 'field_name' not in scope or scope['field_name'] == f

        stale = w.stale()
        wrong = w.wrong_aggregates()
        broken = [x for x in stale + wrong if inside(x[0], x[2])]
        base = w.snapshot(base_only=True)
        far = dict((m, m._base_manager.order_by('pk').values_list()) for m in unrelated
                   if scope and not any(inside(m, f.name) for f in m._meta.fields))
        far = dict((m, list(q)) for m, q in far.items())
        marked_far = set(m for m, _ in w.marked())
        res.trace.append({'rebuild': scope})
        out = io.StringIO()
        with bounded(20000 + 1500 * rows_total(w), "rebuild"), contextlib.redirect_stdout(out):
            if 'field_name' not in scope and rng.random() < 0.5:
                call_command('denorm_rebuild', *scope.values(), verbosity=rng.choice([0, 1, 2]))
            else:
                denorm.rebuildall(verbose=rng.random() < 0.3, **scope)
        if w.markers():
            raise Violation("rebuild_left", "a rebuild left work recorded", scope=scope)
        for m, pk, f, stored, want in w.stale():
            if inside(m, f):
                raise Violation("rebuild_wrong", "%s(%r).%s is %r after a rebuild, the function returns %r" % (
                    m.__name__, pk, f, stored, want), scope=scope, mode=mode)
        for m, pk, f, stored, want in w.wrong_aggregates():
            if inside(m, f):
                raise Violation("rebuild_wrong", "%s(%r).%s is %r after a rebuild but %r rows/units are related" % (
                    m.__name__, pk, f, stored, want), scope=scope, mode=mode)
        now = w.snapshot(base_only=True)
        if now != base:
            raise Violation("rebuild_intrudes", "a rebuild changed columns that are not denormalized", scope=scope,
                            diff=diff(base, now))
        for m, rows in far.items():
            if m not in marked_far and list(m._base_manager.order_by('pk').values_list()) != rows:
                raise Violation("rebuild_scope", "a rebuild of %r changed rows of %s" % (scope, m.__name__))
            res.cov['out_of_scope_tables_compared'] += 1
        if broken:
            res.note((cfg['case'], mode, tuple(sorted(scope.items())), names(broken)), scope=scope, mode=mode,
                     repaired=names(broken))
        else:
            res.trivial()
        res.cov['mode:' + mode] += 1
    res.cov.update(w.cov)
