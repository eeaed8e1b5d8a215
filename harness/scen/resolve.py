"""Pairs of models with random relations between them and a dependency with random hints.  A brute-force list of the
relations that fit the hints decides what has to happen: exactly one fits - only that one is tracked (shown by changing
linked rows); none or several - refused with an error."""
import contextlib
import gc
import io

import boot
from common import Violation, seeded

TYPES = ('forward', 'backward', 'forward_m2m', 'backward_m2m')


def generate(rng):
    """A description of two models and a dependency of the first on the second."""
    same = rng.random() < 0.2
    rels = []
    pool = rng.choice([['link', 'other', 'third', 'fourth'], ['link', 'link_to', 'links', 'a_link']])

    def name(side):
        cand = [n for n in pool if n not in [r['name'] for r in rels if r['side'] == side]]
        return rng.choice(cand)
    for _ in range(rng.choice([0, 1, 1, 2, 2, 3])):
        kind = rng.choice(['fk', 'fk', 'o2o', 'm2m', 'm2m', 'gen'])
        side = 'A' if same else rng.choice('AB')
        if kind == 'gen' and (same or any(r['kind'] == 'gen' for r in rels)):
            continue
        rels.append({'side': side, 'name': name(side), 'kind': kind, 'by': rng.choice(['class', 'name', 'label'])})
    # relations to a model that has nothing to do with it
    for side in 'AB':
        if rng.random() < 0.3 and len([r for r in rels if r['side'] == side]) < 4 and not (same and side == 'B'):
            rels.append({'side': side, 'name': name(side), 'kind': rng.choice(['fk', 'm2m']),
                         'by': rng.choice(['class', 'label']), 'decoy': True})
    hint = None
    if rng.random() < 0.5:
        hint = rng.choice(pool)
        if rng.random() < 0.3:
            hint += '_id'
    d = {
        'same': same, 'rels': rels, 'hint': hint, 'type': rng.choice(TYPES) if rng.random() < 0.35 else None,
        'first': rng.choice('AB'), 'by': rng.choice(['class', 'name', 'label', 'self'] if same else ['class', 'name', 'label']),
        'field': rng.choice(['text', 'text', 'key', 'key', 'fk']),
        'missing': not same and rng.random() < 0.04,
        # the unrelated model has the name of the other one, but lives elsewhere
        'namesake': rng.random() < 0.4,
        'abstract': not same and rng.random() < 0.2,
        'positional': rng.random() < 0.3,
    }
    # the field itself instead of its name
    named = [r for r in rels if r['name'] == hint]
    d['object'] = rng.random() < 0.3 and len(named) == 1 and named[0]['side'] == 'A' and named[0]['kind'] != 'gen'
    return d


def candidates(d):
    out = []
    for r in d['rels']:
        if r.get('decoy'):
            continue
        hint = d['hint']
        if r['kind'] in ('fk', 'o2o'):
            if hint and hint not in (r['name'], r['name'] + '_id'):
                continue
            types = ['forward' if r['side'] == 'A' else 'backward']
            if d['same']:
                types = ['forward', 'backward'] if d['type'] else ['forward']
        else:
            if hint and hint != r['name']:
                continue
            types = ['forward_m2m' if r['side'] == 'A' else 'backward_m2m']
            if d['same']:
                types = ['forward_m2m', 'backward_m2m'] if d['type'] else ['forward_m2m']
        for t in types:
            if not d['type'] or d['type'] == t:
                out.append((t, r))
    if d['field'] == 'fk':
        r = {'side': 'A', 'name': 'value', 'kind': 'fk', 'own': True}
        if not d['hint'] or d['hint'] in ('value', 'value_id'):
            for t in (['forward', 'backward'] if d['same'] and d['type'] else ['forward']):
                if not d['type'] or d['type'] == t:
                    out.append((t, r))
    return out


class Build(object):
    def __init__(self, d, n):
        from django.apps import apps
        from django.contrib.contenttypes.fields import GenericForeignKey, GenericRelation
        from django.contrib.contenttypes.models import ContentType
        from django.db import models
        from denorm import CacheKeyField, denormalized, depend_on_related
        self.d = d
        self.names = {'A': 'Alpha%d' % n, 'B': 'Alpha%d' % n if d['same'] else 'Beta%d' % n, 'C': 'Gamma%d' % n}
        if d['namesake']:
            self.names['C'] = self.names['B']
        self.models = {}
        self.receivers = list(models.signals.class_prepared.receivers)

        def ref(what, by):
            nm = self.names[what]
            if by == 'self':
                return 'self'
            if by == 'class' and what in self.models:
                return self.models[what]
            if what == 'C':
                return 'velsewhere.' + nm
            return 'vcase.' + nm if by == 'label' else nm

        def make(which):
            attrs = {'__module__': 'vcase.models', 'data': models.IntegerField(default=0)}
            if which == 'C':
                attrs['__module__'] = 'velsewhere.models'
                attrs['Meta'] = type('Meta', (), {'app_label': 'velsewhere', 'db_table': 'velsewhere_%d' % n})
            for r in d['rels']:
                if r['side'] != which:
                    continue
                target = 'C' if r.get('decoy') else 'B' if which == 'A' else 'A'
                to = ref(target, r['by'])
                kw = {'related_name': '%s_%s_of_%s' % (r['name'], which.lower(), n)}
                if r['kind'] == 'fk':
                    f = models.ForeignKey(to, null=True, on_delete=models.SET_NULL, **kw)
                elif r['kind'] == 'o2o':
                    f = models.OneToOneField(to, null=True, on_delete=models.SET_NULL, **kw)
                elif r['kind'] == 'm2m':
                    if d['same']:
                        kw['symmetrical'] = False
                    f = models.ManyToManyField(to, **kw)
                else:
                    f = GenericRelation(to)
                attrs[r['name']] = f
            if any(r['kind'] == 'gen' and r['side'] != which for r in d['rels']) and which in 'AB':
                attrs['content_type'] = models.ForeignKey(ContentType, null=True, on_delete=models.CASCADE)
                attrs['object_id'] = models.PositiveIntegerField(null=True)
                attrs['content_object'] = GenericForeignKey()
            if which == 'A':
                kw = {}
                if d['hint']:
                    kw['foreign_key'] = attrs[d['hint']] if d['object'] else d['hint']
                if d['type']:
                    kw['type'] = d['type']
                to = ['NoSuch%d' % n if d['missing'] else ref('B', d['by'])]
                if d['positional']:
                    to += [kw.pop('foreign_key', None), kw.pop('type', None)]
                if d['field'] == 'key':
                    f = attrs['value'] = CacheKeyField()
                    f.depend_on_related(*to, **kw)
                else:
                    def value(self):
                        return None if d['field'] == 'fk' else 'x'
                    value = depend_on_related(*to, **kw)(value)
                    if d['field'] == 'fk':
                        attrs['value'] = denormalized(models.ForeignKey, ref('B', 'name'), null=True, related_name='+',
                                                      on_delete=models.SET_NULL)(value)
                    else:
                        attrs['value'] = denormalized(models.TextField, default='')(value)
            base = models.Model
            if which == 'A' and d['abstract']:
                base = type('Abstract%d' % n, (models.Model,), dict(attrs, Meta=type('Meta', (), {'abstract': True})))
                attrs = {'__module__': 'vcase.models'}
            m = type(self.names[which], (base,), attrs)
            self.models[which] = m

        late = all(r['by'] == 'label' for r in d['rels'] if r.get('decoy'))
        if not late:
            make('C')
        if d['same']:
            make('A')
            self.models['B'] = self.models['A']
        else:
            for which in ('AB' if d['first'] == 'A' else 'BA'):
                make(which)
        if late:
            make('C')
        self.A, self.B = self.models['A'], self.models['B']

    @staticmethod
    def forget(receivers):
        """A registry without the models, also if declaring them failed half way."""
        from django.apps import apps
        from django.db import models
        for label in ('vcase', 'velsewhere'):
            all_models = apps.all_models[label]
            for k in list(all_models):
                del all_models[k]
        apps._pending_operations.clear()
        apps.clear_cache()
        models.signals.class_prepared.receivers = receivers
        models.signals.class_prepared.sender_receivers_cache.clear()
        from django.contrib.contenttypes.models import ContentType
        ContentType.objects.clear_cache()


def statements(denorms):
    """Everything that is needed to install the triggers, without installing them."""
    build = getattr(denorms, 'build_triggerset', None)
    if build is not None:
        build()
    else:
        with contextlib.redirect_stdout(io.StringIO()):
            from django.core.management import call_command
            call_command("denorm_sql")


def run(cfg, res):
    boot.setup(install=False)
    from django.contrib.contenttypes.models import ContentType
    from django.db import connection, models
    from denorm import denorms
    from denorm.models import DirtyInstance
    rng = seeded(cfg['seed'], 'resolve', cfg.get('stream', cfg['backend']))
    tables = 0

    def tracked(b, d, type_, rel):
        A, B = b.A, b.B
        made = [m for m in (b.models['C'], A) + (() if d['same'] else (B,))]
        # foreign keys in both directions: Django's deferred SQL takes care of the order
        with connection.schema_editor() as ed:
            for m in made:
                ed.create_model(m)
        try:
            denorms.install_triggers()
            ct = ContentType.objects.get_for_model(A)

            def row(m):
                return m._base_manager.create()
            a1, a2, a3 = row(A), row(A), row(A)
            b1 = row(B)
            c1 = row(b.models['C'])

            def link(r, t, a, on=True):
                """a and b1 through one relation, seen from A as type t."""
                left, right = (a, b1) if t.startswith('forward') else (b1, a)
                if r['kind'] in ('fk', 'o2o'):
                    type(left)._base_manager.filter(pk=left.pk).update(**{r['name']: right if on else None})
                elif r['kind'] == 'm2m':
                    mgr = getattr(left, r['name'])
                    (mgr.add if on else mgr.remove)(right)
                else:
                    # the key is in the other row
                    type(right)._base_manager.filter(pk=right.pk).update(
                        content_type=ContentType.objects.get_for_model(left) if on else None, object_id=left.pk if on else None)
            link(rel, type_, a1)
            for r in d['rels']:
                if r.get('decoy'):
                    continue
                t = {'fk': 'forward', 'o2o': 'forward'}.get(r['kind'], 'forward_m2m')
                if r['side'] == 'B':
                    t = t.replace('forward', 'backward')
                if r is not rel:
                    link(r, t, a2)
                elif d['same'] and r['kind'] in ('fk', 'm2m'):
                    # the same relation seen from the other end
                    link(r, t.replace('forward', 'backward') if type_ == t else t, a2)

            def observe():
                if d['field'] == 'key':
                    return dict(A._base_manager.values_list('pk', 'value'))
                DirtyInstance.objects.all()._raw_delete('default')

            def hit(before):
                if d['field'] == 'key':
                    now = dict(A._base_manager.values_list('pk', 'value'))
                    return set(pk for pk in now if now[pk] != before[pk])
                return set(int(x) for x in DirtyInstance.objects.filter(content_type=ct, object_id__isnull=False).values_list(
                    'object_id', flat=True))

            def check(what, before, want, never):
                got = hit(before)
                if not want <= got or got & never:
                    raise Violation("wrong_relation", "%s: tracked rows %s, linked through the meant relation %s, not linked %s"
                                    % (what, sorted(got), sorted(want), sorted(never)), models=d, meant=(type_, rel['name']))
                res.cov['links_checked'] += 1
            never = set([a2.pk, a3.pk])
            before = observe()
            B._base_manager.filter(pk=b1.pk).update(data=5)
            check("changing a linked row", before, set([a1.pk]), never)
            # a forward link is a column of the own row, and so is a generic key
            if type_ != 'forward' and (type_, rel['kind']) != ('backward_m2m', 'gen'):
                before = observe()
                link(rel, type_, a1, on=False)
                check("removing the link", before, set([a1.pk]), never - (set([a2.pk]) if d['same'] else set()))
                before = observe()
                B._base_manager.filter(pk=b1.pk).update(data=6)
                check("changing a row no longer linked", before, set(), set([a1.pk, a3.pk]))
                before = observe()
                link(rel, type_, a3)
                check("adding a link", before, set([a3.pk]), set([a1.pk]) | (never - set([a3.pk]) if not d['same'] else set()))
            return True
        finally:
            denorms.drop_triggers()
            DirtyInstance.objects.all()._raw_delete('default')
            with connection.schema_editor() as ed:
                if connection.vendor != 'sqlite':
                    with connection.cursor() as c:
                        q = connection.ops.quote_name
                        names = [m._meta.db_table for m in made] + [
                            f.m2m_db_table() for m in made for f in m._meta.local_many_to_many]
                        if connection.vendor == 'mysql':
                            c.execute("SET foreign_key_checks = 0")
                        for t in names:
                            c.execute("DROP TABLE %s %s" % (q(t), "CASCADE" if connection.vendor == 'postgresql' else ""))
                        if connection.vendor == 'mysql':
                            c.execute("SET foreign_key_checks = 1")
                else:
                    for m in made:
                        for f in m._meta.local_many_to_many:
                            if f.remote_field.through._meta.auto_created:
                                ed.delete_model(f.remote_field.through)
                    for m in made:
                        ed.execute("DROP TABLE %s" % connection.ops.quote_name(m._meta.db_table))
            ContentType.objects.filter(app_label='vcase')._raw_delete('default')

    receivers = list(models.signals.class_prepared.receivers)
    for i in range(cfg['n']):
        d = generate(rng)
        if d['same'] and d['field'] == 'key' and connection.vendor == 'mysql':
            # no trigger of MySQL may change the table it belongs to
            d['field'] = 'text'
        fit = candidates(d)
        res.trace.clear()
        res.trace.append(d)
        error = b = None
        try:
            try:
                b = Build(d, i)
                if d['missing'] or len(fit) != 1:
                    statements(denorms)
            except Exception as e:
                error = e
            what = (tuple(sorted((r['side'], r['kind'], bool(r.get('decoy'))) for r in d['rels'])), d['hint'] is not None,
                    d['type'], d['by'], d['first'], d['field'], d['same'], d['namesake'], d['abstract'], d['object'])
            if d['missing']:
                if error is None:
                    raise Violation("not_refused", "a dependency on a model that does not exist is accepted", models=d)
                res.cov['missing_model'] += 1
            elif len(fit) == 1:
                if error is not None:
                    raise Violation("refused", "one relation fits but: %s: %s" % (type(error).__name__, str(error)[:300]),
                                    models=d, meant=(fit[0][0], fit[0][1]['name']))
                res.cov['resolved'] += 1
                if not fit[0][1].get('own') and (tables < cfg['tables']):
                    tables += 1
                    tracked(b, d, *fit[0])
                    res.cov['tracked'] += 1
                    res.cov['tracked:' + fit[0][0] + (':generic' if fit[0][1]['kind'] == 'gen' else '')] += 1
                else:
                    statements(denorms)
            else:
                if not isinstance(error, ValueError):
                    raise Violation("not_refused", "%d relations fit but: %r" % (len(fit), error), models=d,
                                    fit=[(t, r['name']) for t, r in fit])
                res.cov['refused:' + ('none' if not fit else 'several')] += 1
            res.note((what, len(fit), d['missing']), models=d, fits=[(t, r['name']) for t, r in fit],
                     outcome='refused' if error else 'tracked')
        finally:
            Build.forget(list(receivers))
            error = b = None
        if i % 50 == 49:
            gc.collect()
