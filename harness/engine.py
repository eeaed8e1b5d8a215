"""Workload generator and oracles, by introspection of the models of the selected case.

Nothing here looks at how denorm is written: rows are read back through plain SQL/ORM, values are recomputed with the
undecorated functions of the case module, and the only denorm API used is what a project uses.
"""
import collections
import datetime
import decimal
import random
import uuid

from django.apps import apps
from django.contrib.contenttypes.fields import GenericForeignKey, GenericRelation
from django.contrib.contenttypes.models import ContentType
from django.core.exceptions import ObjectDoesNotExist
from django.db import DatabaseError, connection, models, transaction
from django.db.models import F

from common import Violation, jsonable  # noqa
from vcase import spec

D = decimal.Decimal


class Rollback(Exception):
    pass


STRINGS = ['', 'a', 'b', 'A', "o'k", 'per%cent', '%s', u'\xe9', 'two\nlines', 'a;b', '"q"', 'back\\slash', ' x']
INTS = [0, 1, 2, 7, 100]
SIGNED = [0, 1, -1, 5, -40, 100000]
DATES = [datetime.date(2001, 1, 1), datetime.date(2001, 1, 2), datetime.date(1999, 12, 31)]
TIMES = [datetime.datetime(2001, 1, 1, 10, 0, 0), datetime.datetime(2001, 1, 1, 10, 0, 1),
         datetime.datetime(2019, 5, 6, 7, 8, 9)]
DECS = [D('0.00'), D('1.50'), D('-2.25'), D('1.51')]
FLOATS = [0.0, 1.5, -2.25, 1e-9, 1e10]
UUIDS = [uuid.UUID(int=i * 0x1234567890abcdef1234567890abcdef % (1 << 128)) for i in range(1, 7)]


def owner(fn):
    return fn.__qualname__.split('.')[-2]


class World(object):
    def __init__(self, rng, using='default', max_rows=5):
        self.rng = rng
        self.using = using
        self.max_rows = max_rows
        self.vendor = connection.vendor
        self.models = collections.OrderedDict()
        all_models = list(apps.get_app_config('vcase').get_models())
        skip = set(getattr(self.case(), 'NO_WORKLOAD', ()))
        for m in all_models:
            if not m._meta.proxy and not m._meta.swapped and m._meta.managed:
                self.models[m.__name__] = m
        self.callbacks = collections.OrderedDict()
        self.cached = collections.OrderedDict()
        self.aggs = collections.OrderedDict()
        self.keys = collections.OrderedDict()
        self.derived = {}
        for name, m in self.models.items():
            mro = [c.__name__ for c in m.__mro__]
            local = set(f.name for f in list(m._meta.local_fields) + list(m._meta.local_many_to_many))
            every = set(f.name for f in list(m._meta.fields) + list(m._meta.many_to_many))
            self.callbacks[m] = [fn for fn in spec.CALLBACKS if owner(fn) in mro and fn.__name__ in local]
            self.cached[m] = [fn for fn in spec.CACHED if owner(fn) in mro and fn.__name__ in local]
            self.aggs[m] = [(f, fn) for (mn, f), fn in spec.AGGREGATES.items() if mn == name]
            self.keys[m] = [(f, fn) for (mn, f), fn in spec.KEYS.items() if mn == name]
            self.derived[m] = (set(fn.__name__ for fn in spec.CALLBACKS + spec.CACHED
                                   if owner(fn) in mro and fn.__name__ in every) |
                               set(f for (mn, f) in list(spec.AGGREGATES) + list(spec.KEYS) if mn in mro))
            for f in m._meta.fields:
                if getattr(f, 'auto_now', False) or getattr(f, 'auto_now_add', False):
                    self.derived[m].add(f.name)
        self.work = [m for n, m in self.models.items() if n not in skip]
        # other columns that foreign keys refer to; they stay as they are
        self.fixed = set(f.target_field for m in self.models.values() for f in m._meta.local_fields
                         if isinstance(f, models.ForeignKey) and not f.target_field.primary_key)
        self.pool = {}
        self.cov = collections.Counter()
        self.trace = []
        self.orm_only = set(self.models[n] for n in getattr(self.case(), 'ORM_ONLY', ()))
        self.save_only = self.orm_only | set(self.models[n] for n in getattr(self.case(), 'SAVE_ONLY', ()))
        self.on_step = None
        self.on_form = None
        self.spoil = 0.15
        self.no_loops = False
        self.on_rollback = None
        self.saved = None
        self.distinct = set()

    def case(self):
        from vcase.models import case
        return case

    # ------------------------------------------------------------------ fields
    def base_fields(self, m):
        """The columns a user writes."""
        out = []
        gfk = set()
        for p in m._meta.private_fields:
            if isinstance(p, GenericForeignKey):
                gfk.add(p.ct_field)
                gfk.add(p.fk_field)
        for f in m._meta.fields:
            if f.name in self.derived[m] or f.primary_key or f.name in gfk:
                continue
            if f.remote_field and getattr(f.remote_field, 'parent_link', False):
                continue
            out.append(f)
        return out

    def gfks(self, m):
        return [p for p in m._meta.private_fields if isinstance(p, GenericForeignKey)]

    def m2ms(self, m):
        return [f for f in m._meta.local_many_to_many if f.name not in self.derived[m]]

    def generic_targets(self, tag_model):
        out = []
        for m in self.models.values():
            for p in m._meta.private_fields:
                if isinstance(p, GenericRelation) and p.remote_field.model is tag_model:
                    out.append(m)
        return out

    def pks(self, m):
        return list(m._base_manager.using(self.using).order_by('pk').values_list('pk', flat=True))

    def strings(self, f):
        extra = getattr(self.case(), 'STRINGS', {}).get(f.name)
        pool = extra if extra is not None else STRINGS
        n = f.max_length or 1000
        return [x for x in pool if len(x) <= n]

    def value(self, m, f, pk=None):
        """A legal random value for the column, as what is stored in attname."""
        r = self.rng
        hook = getattr(self.case(), 'VALUES', {}).get((m.__name__, f.name))
        if hook is not None:
            cand = hook() if callable(hook) else hook
            if f in self.fixed:
                used = set(m._base_manager.using(self.using).values_list(f.attname, flat=True))
                cand = [c for c in cand if c not in used]
                if not cand:
                    raise LookupError
            return r.choice(cand)
        if isinstance(f, models.ForeignKey):
            target = f.remote_field.model
            attr = f.target_field.attname
            cand = list(target._base_manager.using(self.using).order_by('pk').values_list(attr, flat=True))
            if not f.db_constraint:
                # the other row may come later, or never
                cand += [v for v in self.own_keys(f.target_field) if v not in cand]
            if isinstance(f, models.OneToOneField) or f.unique:
                used = set(m._base_manager.using(self.using).exclude(pk=pk).values_list(f.attname, flat=True))
                cand = [c for c in cand if c not in used]
            if target is m and pk is not None:
                cand = [c for c in cand if not self.reaches(m, f, c, pk)]
            if f.null and (not cand or r.random() < 0.25):
                return None
            if not cand:
                raise LookupError
            return r.choice(cand)
        if f.null and r.random() < 0.25:
            return None
        if isinstance(f, (models.CharField, models.TextField)):
            return r.choice(self.strings(f))
        if isinstance(f, models.UUIDField):
            return r.choice(UUIDS)
        if isinstance(f, (models.PositiveIntegerField, models.PositiveSmallIntegerField)):
            return r.choice(INTS)
        if isinstance(f, models.SmallIntegerField):
            return r.choice([0, 1, -1, 5, -40, 30000])
        if isinstance(f, (models.IntegerField, models.BigIntegerField)):
            return r.choice(SIGNED)
        if isinstance(f, (models.BooleanField, models.NullBooleanField)):
            return r.choice([True, False] + ([None] if f.null else []))
        if isinstance(f, models.DateTimeField):
            return r.choice(TIMES)
        if isinstance(f, models.DateField):
            return r.choice(DATES)
        if isinstance(f, models.DecimalField):
            return r.choice(DECS)
        if isinstance(f, models.FloatField):
            return r.choice(FLOATS)
        if isinstance(f, models.BinaryField):
            return r.choice([b'', b'a', b'\x00\xff'])
        raise NotImplementedError(f)

    def reaches(self, m, f, start, goal):
        """Would making ``goal`` a child of ``start`` close a cycle?"""
        if f.target_field in self.fixed:
            goal = m._base_manager.using(self.using).filter(pk=goal).values_list(f.target_field.attname, flat=True).first()
        seen = set()
        cur = start
        while cur is not None and cur not in seen:
            if cur == goal:
                return True
            seen.add(cur)
            cur = m._base_manager.using(self.using).filter(**{f.target_field.attname: cur}).values_list(
                f.attname, flat=True).first()
        return False

    def new_pk(self, m):
        """An explicit primary key, or None for the database's own."""
        pk = m._meta.pk
        r = self.rng
        hook = getattr(self.case(), 'VALUES', {}).get((m.__name__, pk.name))
        if hook is not None:
            cand = hook() if callable(hook) else hook
        elif isinstance(pk, models.AutoField):
            if r.random() < 0.75 or not getattr(self.case(), 'EXPLICIT_PK', True):
                return None
            cand = range(1000, 1004)
        elif isinstance(pk, models.ForeignKey):
            if getattr(pk.remote_field, 'parent_link', False):
                return None
            cand = self.pks(pk.remote_field.model)
        else:
            cand = self.own_keys(pk)
        used = set(self.pks(m))
        cand = [c for c in cand if c not in used]
        if not cand:
            raise LookupError
        return r.choice(list(cand))

    def own_keys(self, pk):
        """The values new rows may get as primary key."""
        if isinstance(pk, models.UUIDField):
            return UUIDS
        if isinstance(pk, models.CharField):
            return [x for x in ['k1', 'k 2', "k'3", 'k%4', u'k\xe95', '6', '0x7', 'K/8'] if len(x) <= pk.max_length]
        return [1, 2, 3, -4, 5000000]

    # ------------------------------------------------------------------ generation
    def gen_vals(self, m, some=False, pk=None):
        vals = {}
        fields = self.base_fields(m)
        if pk is not None:
            fields = [f for f in fields if f not in self.fixed]
        if some and fields:
            fields = self.rng.sample(fields, self.rng.randint(1, min(2, len(fields))))
        for f in fields:
            vals[f.attname] = self.value(m, f, pk)
        if not some or (self.gfks(m) and self.rng.random() < 0.6):
            for g in self.gfks(m):
                vals.update(self.gen_gfk(m, g))
        return vals

    def gen_gfk(self, m, g):
        targets = self.generic_targets(m)
        t = self.rng.choice(targets)
        pks = self.pks(t)
        if pks and self.rng.random() < 0.9:
            oid = self.rng.choice(pks)
        else:
            oid = 77777
        ct = ContentType.objects.get_for_model(t)
        ctf = m._meta.get_field(g.ct_field)
        return {ctf.attname: ct.pk, g.fk_field: oid}

    def gen(self, kinds=None, depth=0):
        for _ in range(60):
            try:
                op = self._gen(kinds, depth)
            except LookupError:
                continue
            if op is not None:
                return op
        raise RuntimeError("no operation possible")

    def _gen(self, kinds, depth=0):
        r = self.rng
        weights = kinds or WEIGHTS
        kind = r.choices(list(weights), list(weights.values()))[0]
        if kind == 'txn':
            sub = dict((k, v) for k, v in weights.items() if k not in ('txn',))
            if 'deep' in weights and depth < 2:
                sub['txn'] = weights['deep']
            ops = [self.gen(sub, depth + 1) for _ in range(r.randint(1, 3))]
            ends = ['commit', 'commit', 'rollback', 'savepoint']
            return {'op': 'txn', 'ops': ops, 'end': r.choice(ends + ['rollback', 'error'] if 'deep' in weights else ends)}
        if kind == 'deep':
            return None
        if kind in ('flush', 'rebuild'):
            return {'op': kind}
        m = r.choice(self.work)
        pks = self.pks(m)
        if kind == 'create':
            if len(pks) >= self.max_rows:
                return None
            how = r.choice(['save', 'create', 'bulk', 'raw', 'goc', 'clone', 'force'])
            if m in self.orm_only and how in ('bulk', 'raw'):
                how = 'save'
            if len(m._meta.concrete_fields) != len(m._meta.local_concrete_fields) and how in ('bulk', 'raw'):
                how = 'save'
            n = r.randint(1, 2) if how == 'bulk' else 1
            rows = []
            for _ in range(n):
                vals = self.gen_vals(m)
                pk = self.new_pk(m)
                if pk is not None:
                    if any(x.get(m._meta.pk.attname) == pk for x in rows):
                        continue
                    vals[m._meta.pk.attname] = pk
                if rows and any(isinstance(f, models.OneToOneField) or f in self.fixed for f in self.base_fields(m)):
                    continue
                rows.append(vals)
            op = {'op': 'create', 'm': m.__name__, 'how': how, 'rows': rows}
            if how == 'clone':
                if not pks:
                    return None
                op.update(of=r.choice(pks), adding=r.random() < 0.5)
            if how in ('save', 'bulk', 'clone') and r.random() < self.spoil:
                op['spoil'] = True
            return op
        if not pks:
            return None
        if kind == 'update':
            how = r.choice(['save', 'save', 'save', 'save_uf', 'qs', 'qs', 'qs', 'raw', 'raw', 'stale', 'uoc', 'only', 'replace'])
            if m in self.save_only and how in ('qs', 'raw', 'save_uf', 'only'):
                how = 'save'
            if how in ('qs', 'raw'):
                uniq = any(f.unique for f in self.base_fields(m))
                targets = [r.choice(pks)] if uniq else r.sample(pks, r.randint(1, min(3, len(pks))))
            else:
                targets = [r.choice(pks)]
            vals = self.gen_vals(m, some=how != 'replace', pk=targets[0])
            if not vals:
                return None
            if len(targets) > 1:
                # one value for several rows of a tree could close a cycle
                for f in self.base_fields(m):
                    if isinstance(f, models.ForeignKey) and f.remote_field.model is m and f.attname in vals:
                        targets = targets[:1]
            op = {'op': 'update', 'm': m.__name__, 'how': how, 'pks': targets, 'vals': vals}
            if how in ('save', 'save_uf', 'stale', 'replace') and r.random() < self.spoil:
                op['spoil'] = True
            return op
        if kind == 'rel':
            rels = [(x, f) for x in self.work for f in self.managed(x)]
            if not rels:
                return None
            m, f = r.choice(rels)
            ones, many = self.pks(f.remote_field.model), self.pks(m)
            if not ones:
                return None
            acts = ['add', 'add_save', 'set', 'create']
            if f.null:
                acts += [] if m in self.save_only else ['remove', 'clear', 'remove_save', 'clear_save']
            act = r.choice([a for a in acts if a.endswith('_save') or a == 'create'] if m in self.save_only else acts)
            op = {'op': 'rel', 'm': m.__name__, 'f': f.name, 'act': act, 'pk': r.choice(ones), 'pks': []}
            if act == 'create':
                if len(many) >= self.max_rows:
                    return None
                vals = self.gen_vals(m)
                vals.pop(f.attname, None)
                pk = self.new_pk(m)
                if pk is not None:
                    vals[m._meta.pk.attname] = pk
                op['vals'] = vals
            elif not act.startswith('clear'):
                if not many:
                    return None
                op['pks'] = r.sample(many, r.randint(1, min(3, len(many))))
            return op
        if kind == 'form':
            old = r.choice(pks) if r.random() < 0.6 else None
            if old is None:
                if len(pks) >= self.max_rows:
                    return None
                vals = self.gen_vals(m)
                pk = self.new_pk(m)
                if pk is not None:
                    if isinstance(m._meta.pk, models.AutoField) or not m._meta.pk.editable:
                        return None
                    vals[m._meta.pk.attname] = pk
            else:
                vals = self.gen_vals(m, some=True, pk=old)
            return {'op': 'form', 'm': m.__name__, 'how': 'new' if old is None else 'edit', 'pks': [old], 'vals': vals}
        if kind == 'noop':
            fs = [f.attname for f in self.base_fields(m) if f in m._meta.local_fields]
            return {'op': 'noop', 'm': m.__name__, 'how': r.choice(['save', 'qs', 'raw', 'only']), 'pks': [r.choice(pks)],
                    'fs': r.sample(fs, r.randint(1, len(fs))) if fs else []}
        if kind == 'load':
            touch = r.random() < 0.5 and getattr(self.case(), 'TOUCH', True)
            return {'op': 'load', 'm': m.__name__, 'pks': [r.choice(pks)], 'touch': touch}
        if kind == 'delete':
            how = r.choice(['inst', 'qs', 'raw'])
            n = 1 if how != 'qs' else r.randint(1, min(2, len(pks)))
            targets = r.sample(pks, n)
            return {'op': 'delete', 'm': m.__name__, 'how': how, 'pks': targets}
        if kind == 'm2m':
            ms = [(x, f) for x in self.work for f in self.m2ms(x)]
            if not ms:
                return None
            m, f = r.choice(ms)
            target = f.remote_field.model
            auto = f.remote_field.through._meta.auto_created
            side = r.choice(['fwd', 'rev'])
            if f.remote_field.get_accessor_name() is None or f.remote_field.symmetrical:
                side = 'fwd'
            a, b = self.pks(m), self.pks(target)
            if not a or not b:
                return None
            acts = ['raw_add', 'raw_del', 'raw_upd']
            if auto:
                acts = ['add', 'add', 'remove', 'set', 'set_clear', 'clear'] + acts
            else:
                acts = ['clear'] if r.random() < 0.3 else ['raw_del', 'raw_upd']
            act = r.choice(acts)
            one, many = (a, b) if side == 'fwd' else (b, a)
            return {'op': 'm2m', 'm': m.__name__, 'f': f.name, 'side': side, 'act': act, 'pk': r.choice(one),
                    'others': r.sample(many, r.randint(1, min(2, len(many)))), 'to': r.choice(many)}
        raise NotImplementedError(kind)

    # ------------------------------------------------------------------ execution
    def apply(self, op):
        """Execute; returns False when there turned out to be nothing to do."""
        self.cov['op:' + op['op'] + (':' + op['how'] if 'how' in op else ':' + op['act'] if 'act' in op else '')] += 1
        self.saved = None
        return getattr(self, 'do_' + op['op'])(op)

    def legal(self, m, vals, pk=None):
        """vals with references that have gone since generation repaired (None), or None if impossible."""
        out = dict(vals)
        for f in self.fixed:
            if f.model is m and f.attname in out and m._base_manager.using(self.using).filter(
                    **{f.attname: out[f.attname]}).exclude(pk=pk).exists():
                return None
        for f in m._meta.fields:
            if f.attname in out and isinstance(f, models.ForeignKey) and out[f.attname] is not None:
                t = f.remote_field.model
                ok = not f.db_constraint or t._base_manager.using(self.using).filter(
                    **{f.target_field.attname: out[f.attname]}).exists()
                if ok and t is m and pk is not None and self.reaches(m, f, out[f.attname], pk):
                    ok = False
                if ok and f.unique and m._base_manager.using(self.using).filter(
                        **{f.attname: out[f.attname]}).exclude(pk=pk).exists():
                    ok = False
                if not ok:
                    if not f.null:
                        return None
                    out[f.attname] = None
        return out

    def get(self, m, pk):
        return m._base_manager.using(self.using).filter(pk=pk).first()

    def do_create(self, op):
        m = self.models[op['m']]
        rows = []
        for vals in op['rows']:
            vals = self.legal(m, vals)
            if vals is None:
                continue
            pk = vals.get(m._meta.pk.attname)
            if pk is not None and m._base_manager.using(self.using).filter(pk=pk).exists():
                continue
            rows.append(vals)
        if not rows:
            return False
        how = op['how']
        spoil = op.get('spoil')
        if how in ('save', 'force'):
            for v in rows:
                o = m(**v)
                if spoil:
                    self.garbage(o)
                o.save(using=self.using, force_insert=how == 'force')
                self.saved = o
        elif how == 'clone':
            for v in rows:
                o = self.get(m, op['of'])
                if o is None:
                    return False
                for x in [m] + list(m._meta.get_parent_list()):
                    setattr(o, x._meta.pk.attname, None)
                    if x._meta.pk.is_relation and x._meta.pk.is_cached(o):
                        x._meta.pk.delete_cached_value(o)
                if m._meta.pk.has_default():
                    o.pk = m._meta.pk.get_default()
                if op['adding'] or m._meta.pk.attname in v:
                    o._state.adding = True
                if spoil:
                    self.garbage(o)
                self.assign(o, v)
                o.save(using=self.using)
                self.saved = o
        elif how == 'create':
            for v in rows:
                self.saved = m._base_manager.using(self.using).create(**v)
        elif how == 'goc':
            for v in rows:
                pk = v.pop(m._meta.pk.attname, None)
                qs = m._base_manager.using(self.using)
                if pk is None:
                    self.saved = qs.create(**v)
                else:
                    self.saved = qs.get_or_create(defaults=v, **{m._meta.pk.attname: pk})[0]
        elif how == 'bulk':
            new = [m(**v) for v in rows]
            if spoil:
                for o in new:
                    self.garbage(o)
            m._base_manager.using(self.using).bulk_create(new)
        else:
            for v in rows:
                self.raw_insert(m, v)
        return True

    def conn(self):
        from django.db import connections
        return connections[self.using]

    def raw_insert(self, m, vals):
        conn = self.conn()
        qn = conn.ops.quote_name
        cols, params = [], []
        for f in m._meta.local_concrete_fields:
            if f.attname in vals:
                v = vals[f.attname]
            elif f.primary_key:
                if isinstance(f, models.AutoField):
                    continue
                v = f.get_default()
            elif f.has_default():
                v = f.get_default()
            elif f.null:
                v = None
            elif isinstance(f, (models.DateTimeField,)):
                v = TIMES[0]
            elif isinstance(f, models.DateField):
                v = TIMES[0].date()
            elif isinstance(f, models.ForeignKey):
                v = f.remote_field.model._base_manager.using(self.using).values_list(f.target_field.attname, flat=True).first()
            elif isinstance(f, (models.IntegerField, models.BigIntegerField)):
                v = 0
            else:
                v = ''
            cols.append(qn(f.column))
            params.append(f.get_db_prep_save(v, conn))
        with conn.cursor() as c:
            c.execute("INSERT INTO %s (%s) VALUES (%s)" % (qn(m._meta.db_table), ", ".join(cols),
                                                         ", ".join(["%s"] * len(cols))), params)

    def raw_update(self, m, pks, vals):
        conn = self.conn()
        qn = conn.ops.quote_name
        # one statement per table of a multi-table model
        tables = collections.OrderedDict()
        for f in m._meta.concrete_fields:
            if f.attname in vals:
                tables.setdefault(f.model, []).append(f)
        for tm, fields in tables.items():
            sets, params = [], []
            for f in fields:
                sets.append("%s = %%s" % qn(f.column))
                params.append(f.get_db_prep_save(vals[f.attname], conn))
            pkf = tm._meta.pk
            for pk in pks:
                params.append(pkf.get_db_prep_save(pk, conn))
            with conn.cursor() as c:
                c.execute("UPDATE %s SET %s WHERE %s IN (%s)" % (
                    qn(tm._meta.db_table), ", ".join(sets), qn(pkf.column), ", ".join(["%s"] * len(pks))), params)

    def assign(self, o, vals):
        for f in o._meta.concrete_fields:
            if f.attname in vals and getattr(o, f.attname) != vals[f.attname]:
                setattr(o, f.attname, vals[f.attname])
                # Django 2.0 keeps returning the object cached for the old value
                if f.is_relation and f.is_cached(o):
                    f.delete_cached_value(o)

    def do_update(self, op):
        m = self.models[op['m']]
        pks = [pk for pk in op['pks'] if m._base_manager.using(self.using).filter(pk=pk).exists()]
        if not pks:
            return False
        vals = self.legal(m, op['vals'], pks[0])
        if not vals:
            return False
        how = op['how']
        if how in ('save', 'save_uf', 'stale', 'only', 'replace'):
            o = None
            if how == 'stale':
                o = self.pool.get((m, pks[0]))
            elif how == 'only':
                o = m._base_manager.using(self.using).filter(pk=pks[0]).only(
                    *[f.name for f in m._meta.concrete_fields if f.attname in vals]).first()
            elif how == 'replace':
                o = self.get(m, pks[0])
                if o is None:
                    return False
                # the keys of the tables of a multi-table model and what only the database knows
                keep = dict((f.attname, getattr(o, f.attname)) for f in m._meta.concrete_fields
                            if f.name not in self.derived[m] or getattr(f, 'auto_now_add', False))
                o = m(**dict(keep, **vals))
            if o is None:
                o = self.get(m, pks[0])
            if o is None:
                return False
            for f in m._meta.concrete_fields:
                # denormalized relations whose object is already known to the instance
                if f.is_relation and hasattr(f, 'denorm') and how not in ('only', 'replace'):
                    try:
                        getattr(o, f.name, None)
                    except ObjectDoesNotExist:
                        pass
            self.assign(o, vals)
            if op.get('spoil'):
                self.garbage(o)
            if how == 'stale':
                if any(f.model is m for f in self.fixed):
                    # may be another row with the same primary key by now
                    now = self.get(m, pks[0])
                    for f in self.fixed:
                        if f.model is m:
                            setattr(o, f.attname, getattr(now, f.attname))
                fixed = self.legal(m, dict((f.attname, getattr(o, f.attname)) for f in self.base_fields(m)), pks[0])
                if fixed is None:
                    return False
                self.assign(o, fixed)
            if how == 'save_uf':
                names = [f.name for f in m._meta.fields if f.attname in vals]
                if op.get('spoil'):
                    names += sorted(f.name for f in m._meta.concrete_fields if f.name in self.derived[m])
                o.save(using=self.using, update_fields=names)
            else:
                o.save(using=self.using)
                if how in ('save', 'replace'):
                    self.saved = o
        elif how == 'uoc':
            o = m._base_manager.using(self.using).filter(pk=pks[0]).first()
            if o is None:
                return False
            names = set(f.attname for f in m._meta.fields if f.is_relation)
            if names & set(vals):
                # see assign()
                self.assign(o, vals)
                o.save(using=self.using)
            else:
                o = m._base_manager.using(self.using).update_or_create(pk=pks[0], defaults=vals)[0]
            self.saved = o
        elif how == 'qs':
            names = dict((f.attname, f.name) for f in m._meta.fields)
            m._base_manager.using(self.using).filter(pk__in=pks).update(
                **dict((names[k], v) for k, v in vals.items()))
        else:
            self.raw_update(m, pks, vals)
        return True

    def do_noop(self, op):
        m = self.models[op['m']]
        o = self.get(m, op['pks'][0])
        if o is None:
            return False
        if op['how'] == 'save':
            o.save(using=self.using)
            self.saved = o
        elif op['how'] == 'only':
            fs = [f.name for f in m._meta.concrete_fields if f.attname in op['fs']]
            m._base_manager.using(self.using).only(*fs).get(pk=o.pk).save(using=self.using)
        else:
            fs = [f for f in m._meta.local_fields if f.attname in op['fs']]
            if not fs:
                return False
            if op['how'] == 'qs':
                m._base_manager.using(self.using).filter(pk=o.pk).update(**dict((f.name, F(f.name)) for f in fs))
            else:
                self.raw_update(m, [o.pk], dict((f.attname, getattr(o, f.attname)) for f in fs))
        return True

    def garbage(self, o):
        """Values of denormalized fields as nobody should set them."""
        m = type(o)
        for f in m._meta.fields:
            if f.name not in self.derived[m] or getattr(f, 'auto_now', False) or getattr(f, 'auto_now_add', False) or \
                    any(fn.__name__ == f.name for fn in spec.CACHED):
                continue
            if f.is_relation:
                cand = list(f.remote_field.model._base_manager.using(self.using).order_by('pk')[:3])
                setattr(o, f.name, self.rng.choice(cand) if cand else None)
            elif isinstance(f, (models.CharField, models.TextField)):
                setattr(o, f.attname, 'garbage'[:f.max_length])
            elif isinstance(f, (models.IntegerField, models.BigIntegerField, models.DecimalField, models.FloatField)):
                setattr(o, f.attname, self.rng.choice([0, 4711, None] if f.null else [0, 4711]))
            elif isinstance(f, models.BooleanField):
                setattr(o, f.attname, not getattr(o, f.attname))
            elif f.null:
                setattr(o, f.attname, None)
        self.cov['spoilt'] += 1

    def do_form(self, op):
        """Through a form that Django makes for the model, with values for every field there is."""
        from django.forms.models import modelform_factory, model_to_dict
        m = self.models[op['m']]
        o = None
        if op['pks'][0] is not None:
            o = self.get(m, op['pks'][0])
            if o is None:
                return False
        vals = self.legal(m, op['vals'], op['pks'][0])
        if vals is None or o is None and vals.get(m._meta.pk.attname) is not None and \
                self.get(m, vals[m._meta.pk.attname]) is not None:
            return False
        form = modelform_factory(m, fields='__all__')
        if self.on_form is not None:
            self.on_form(m, form)
        for f in form.base_fields.values():
            f.required = False
        data = model_to_dict(o) if o is not None else {}
        for f in m._meta.fields:
            if f.attname in vals:
                data[f.name] = vals[f.attname]
            elif f.name in self.derived[m]:
                data[f.name] = 4711 if isinstance(f, (models.IntegerField, models.BigIntegerField)) else 'garbage'
        for f in m._meta.many_to_many:
            data[f.name] = [x.pk for x in data.get(f.name, [])]
            if f.name in self.derived[m]:
                data[f.name] = self.pks(f.remote_field.model)[:1]
        form = form(dict((k, v) for k, v in data.items() if v is not None), instance=o)
        if not form.is_valid():
            self.cov['form_refused'] += 1
            return False
        self.cov['form_saved'] += 1
        self.saved = form.save()
        return True

    def managed(self, m):
        """Foreign keys with a manager on the other side."""
        return [f for f in self.base_fields(m) if isinstance(f, models.ForeignKey) and not isinstance(f, models.OneToOneField)
                and not f.remote_field.is_hidden() and f.remote_field.model is not m and not f.unique and
                f in m._meta.local_fields and f.remote_field.model in self.models.values()]

    def do_rel(self, op):
        m = self.models[op['m']]
        f = m._meta.get_field(op['f'])
        one = self.get(f.remote_field.model, op['pk'])
        if one is None:
            return False
        mgr = getattr(one, f.remote_field.get_accessor_name())
        act, _, save = op['act'].partition('_')
        kw = {'bulk': not save}
        if act == 'create':
            vals = self.legal(m, op['vals'])
            if vals is None:
                return False
            pk = vals.get(m._meta.pk.attname)
            if pk is not None and self.get(m, pk) is not None:
                return False
            self.saved = mgr.create(**vals)
            return True
        many = list(m._base_manager.using(self.using).filter(pk__in=op['pks']).order_by('pk'))
        if act == 'clear':
            mgr.clear(**kw)
        elif not many:
            return False
        elif act == 'add':
            mgr.add(*many, **kw)
        elif act == 'remove':
            many = [o for o in many if getattr(o, f.attname) == getattr(one, f.target_field.attname)]
            if not many:
                return False
            mgr.remove(*many, **kw)
        else:
            mgr.set(many)
        return True

    def do_flush(self, op):
        from common import flush
        flush(self)
        return True

    def do_rebuild(self, op):
        import denorm
        from common import bounded, rows_total
        with bounded(5000 + 1500 * rows_total(self) + 100 * len(self.markers()), "rebuildall()"):
            denorm.rebuildall()
        return True

    def do_load(self, op):
        m = self.models[op['m']]
        o = self.get(m, op['pks'][0])
        if o is None:
            return False
        if op['touch']:
            for f in m._meta.fields:
                if isinstance(f, models.ForeignKey):
                    try:
                        getattr(o, f.name)
                    except ObjectDoesNotExist:
                        pass
        self.pool[(m, o.pk)] = o
        return True

    def referenced(self, m, pk):
        for rel in m._meta.get_fields(include_hidden=True):
            if not (rel.auto_created and not rel.concrete):
                continue
            rm = rel.related_model
            f = rel.field
            if rm is not None and not issubclass(m, f.remote_field.model._meta.concrete_model):
                continue
            if not getattr(f, 'db_constraint', True):
                continue
            if rel.many_to_many:
                t = rel.through
                if t._base_manager.using(self.using).filter(**{f.m2m_reverse_field_name() + '_id': pk}).exists():
                    return True
            else:
                key = pk
                if f.target_field in self.fixed:
                    key = m._base_manager.using(self.using).filter(pk=pk).values_list(f.target_field.attname, flat=True).first()
                if rm._base_manager.using(self.using).filter(**{f.attname: key}).exists():
                    return True
        for f in m._meta.many_to_many:
            t = f.remote_field.through
            if t._base_manager.using(self.using).filter(**{f.m2m_field_name() + '_id': pk}).exists():
                return True
        return False

    def do_delete(self, op):
        m = self.models[op['m']]
        pks = [pk for pk in op['pks'] if m._base_manager.using(self.using).filter(pk=pk).exists()]
        if not pks:
            return False
        how = op['how']
        if how == 'raw' and (self.referenced(m, pks[0]) or m._meta.parents):
            how = 'inst'
        if how == 'inst':
            for pk in pks:
                o = self.get(m, pk)
                if o is not None:
                    o.delete(using=self.using)
        elif how == 'qs':
            m._base_manager.using(self.using).filter(pk__in=pks).delete()
        else:
            conn = self.conn()
            qn = conn.ops.quote_name
            f = m._meta.pk
            with conn.cursor() as c:
                c.execute("DELETE FROM %s WHERE %s = %%s" % (qn(m._meta.db_table), qn(f.column)),
                          [f.get_db_prep_save(pks[0], conn)])
        return True

    def do_m2m(self, op):
        m = self.models[op['m']]
        f = m._meta.get_field(op['f'])
        target = f.remote_field.model
        fwd = op['side'] == 'fwd'
        am, bm = (m, target) if fwd else (target, m)
        if not am._base_manager.using(self.using).filter(pk=op['pk']).exists():
            return False
        others = [o for o in op['others'] if bm._base_manager.using(self.using).filter(pk=o).exists()]
        if self.no_loops and am is bm:
            others = [o for o in others if o != op['pk']]
            if op['to'] == op['pk']:
                return False
        if not others:
            return False
        act = op['act']
        if not act.startswith('raw'):
            o = self.get(am, op['pk'])
            if o is None:
                return False
            mgr = getattr(o, f.name if fwd else f.remote_field.get_accessor_name())
            if act == 'clear':
                mgr.clear()
            elif act in ('set', 'set_clear'):
                mgr.set(others, clear=act == 'set_clear')
            else:
                getattr(mgr, act)(*others)
            return True
        conn = self.conn()
        qn = conn.ops.quote_name
        t = f.remote_field.through
        tab = qn(t._meta.db_table)
        ca, cb = qn(f.m2m_column_name()), qn(f.m2m_reverse_name())
        if not fwd:
            ca, cb = cb, ca

        def prep(mm, v):
            return mm._meta.pk.get_db_prep_save(v, conn)
        pa = prep(am, op['pk'])
        pb = prep(bm, others[0])
        with conn.cursor() as c:
            def has(x, y):
                c.execute("SELECT COUNT(*) FROM %s WHERE %s = %%s AND %s = %%s" % (tab, ca, cb), [x, y])
                return c.fetchone()[0]
            if act == 'raw_add':
                if has(pa, pb) or not t._meta.auto_created:
                    return False
                c.execute("INSERT INTO %s (%s, %s) VALUES (%%s, %%s)" % (tab, ca, cb), [pa, pb])
            elif act == 'raw_del':
                c.execute("DELETE FROM %s WHERE %s = %%s AND %s = %%s" % (tab, ca, cb), [pa, pb])
            else:
                # move one link to another far end
                if not bm._base_manager.using(self.using).filter(pk=op['to']).exists():
                    return False
                pt = prep(bm, op['to'])
                if not has(pa, pb) or has(pa, pt):
                    return False
                c.execute("UPDATE %s SET %s = %%s WHERE %s = %%s AND %s = %%s" % (tab, cb, ca, cb), [pt, pa, pb])
        return True

    def do_txn(self, op):
        self.cov['txn:' + op['end']] += 1
        before = self.on_rollback and self.snapshot()
        end = op['end']
        try:
            with transaction.atomic(using=self.using):
                for i, o in enumerate(op['ops']):
                    if self.on_step is not None and i:
                        self.on_step()
                    if end == 'savepoint' and i == 0:
                        try:
                            with transaction.atomic(using=self.using):
                                self.apply(o)
                                raise Rollback
                        except Rollback:
                            if self.on_rollback:
                                self.on_rollback(before, op)
                    else:
                        self.apply(o)
                if end == 'rollback':
                    raise Rollback
                if end == 'error':
                    try:
                        self.conn().cursor().execute("SELECT nothing FROM no_such_table")
                    except DatabaseError:
                        raise Rollback
        except Rollback:
            # instances written inside a rolled back block are not what the database has
            self.pool.clear()
            if self.on_rollback:
                self.on_rollback(before, op)
        else:
            if end == 'savepoint':
                self.pool.clear()
        return True

    def populate(self, k=2):
        """k rows of every model with every relation set where possible, all columns not NULL."""
        left = list(self.work) * k
        for _ in range(6):
            again = []
            for m in left:
                try:
                    vals = {}
                    for f in self.base_fields(m):
                        v = self.value(m, f)
                        for _ in range(8):
                            if v is not None:
                                break
                            v = self.value(m, f)
                        vals[f.attname] = v
                    for g in self.gfks(m):
                        vals.update(self.gen_gfk(m, g))
                    pk = self.new_pk(m)
                    if pk is not None:
                        vals[m._meta.pk.attname] = pk
                    m(**vals).save(using=self.using)
                except LookupError:
                    again.append(m)
            left = again
            if not left:
                break
        for m in self.work:
            for f in self.m2ms(m):
                if not f.remote_field.through._meta.auto_created:
                    continue
                for o in self.rows(m):
                    cand = [x for x in self.pks(f.remote_field.model)
                            if not self.no_loops or f.remote_field.model is not m or x != o.pk]
                    if cand:
                        getattr(o, f.name).add(*self.rng.sample(cand, self.rng.randint(1, min(2, len(cand)))))
        for m in self.work:
            # relations to models that were created later
            for o in self.rows(m):
                changed = False
                for f in self.base_fields(m):
                    if f.is_relation and getattr(o, f.attname) is None and not f.unique:
                        try:
                            v = self.value(m, f, o.pk)
                        except LookupError:
                            continue
                        if v is not None:
                            self.assign(o, {f.attname: v})
                            changed = True
                if changed:
                    o.save(using=self.using)

    def transitions(self, m, f):
        """Values that are worth following each other in one column."""
        hook = getattr(self.case(), 'VALUES', {}).get((m.__name__, f.name))
        if isinstance(f, models.ForeignKey):
            vals = list(f.remote_field.model._base_manager.using(self.using).order_by('pk').values_list(
                f.target_field.attname, flat=True))
            self.rng.shuffle(vals)
            vals = vals[:2]
        elif hook is not None:
            vals = list(hook() if callable(hook) else hook)[:3]
        elif isinstance(f, (models.CharField, models.TextField)):
            pool = self.strings(f)
            vals = [x for x in ['', 'a', 'A', 'A ', "o'k", '%s'] if x in pool or len(x) <= 2 and pool is STRINGS]
        elif isinstance(f, (models.BooleanField, models.NullBooleanField)):
            vals = [True, False]
        elif isinstance(f, models.DateTimeField):
            vals = TIMES[:2]
        elif isinstance(f, models.DateField):
            vals = DATES[:2]
        elif isinstance(f, models.DecimalField):
            vals = [DECS[1], DECS[3], DECS[0]]
        elif isinstance(f, models.FloatField):
            vals = FLOATS[:3]
        elif isinstance(f, models.UUIDField):
            vals = UUIDS[:2]
        elif isinstance(f, models.BinaryField):
            vals = [b'a', b'']
        elif isinstance(f, (models.PositiveIntegerField, models.PositiveSmallIntegerField)):
            vals = [0, 7, 1]
        elif isinstance(f, (models.IntegerField, models.BigIntegerField, models.SmallIntegerField)):
            vals = [0, -1, 5]
        else:
            vals = [self.value(m, f) for _ in range(3)]
        if f.null:
            out = []
            for v in vals[:1] + vals[-1:] + vals[1:-1]:
                out.extend([v, None] if len(out) < 3 else [v])
            vals = out + [vals[0]] if vals else [None]
        return vals

    def sweep_ops(self, apis):
        """Every column through its transitions by every API, every way to create, delete and link."""
        r = self.rng
        ops = []
        for m in self.work:
            pks = self.pks(m)
            if not pks:
                continue
            local = m in self.save_only
            for f in [x for x in self.base_fields(m) if x not in self.fixed]:
                for api in apis:
                    if local and api in ('qs', 'raw', 'save_uf'):
                        continue
                    pk = r.choice(pks)
                    trans = self.transitions(m, f)
                    for v in trans[:{'raw': 4, 'save_uf': 2}.get(api, 9)]:
                        ops.append({'op': 'update', 'm': m.__name__, 'how': api, 'pks': [pk], 'vals': {f.attname: v}})
                    # several rows in one statement
                    if api == 'qs' and not f.unique and not (f.is_relation and f.remote_field.model is m):
                        for v in trans[:2]:
                            ops.append({'op': 'update', 'm': m.__name__, 'how': api, 'pks': pks, 'vals': {f.attname: v}})
            for g in self.gfks(m):
                for api in apis:
                    for _ in range(5):
                        ops.append({'op': 'update', 'm': m.__name__, 'how': api, 'pks': [r.choice(pks)],
                                    'vals': self.gen_gfk(m, g)})
        for m in self.work:
            for f in self.managed(m):
                many, ones = self.pks(m), self.pks(f.remote_field.model)
                for act in ('add', 'add_save', 'remove', 'set', 'clear', 'remove_save'):
                    if not many or not ones or m in self.save_only and act != 'add_save' or \
                            not f.null and not act.startswith('add'):
                        continue
                    ops.append({'op': 'rel', 'm': m.__name__, 'f': f.name, 'act': act, 'pk': r.choice(ones),
                                'pks': [] if act == 'clear' else r.sample(many, min(len(many), 2))})
            for f in self.m2ms(m):
                auto = f.remote_field.through._meta.auto_created
                target = f.remote_field.model
                sides = ['fwd', 'rev']
                if f.remote_field.get_accessor_name() is None or f.remote_field.symmetrical:
                    sides = ['fwd']
                acts = ['clear', 'add', 'remove', 'add', 'set', 'set_clear', 'raw_upd', 'raw_del', 'raw_add', 'raw_upd']
                if not auto:
                    acts = ['raw_upd', 'raw_del']
                for side in sides:
                    a, b = self.pks(m), self.pks(target)
                    if side == 'rev':
                        a, b = b, a
                    if not a or not b:
                        continue
                    for act in acts:
                        ops.append({'op': 'm2m', 'm': m.__name__, 'f': f.name, 'side': side, 'act': act,
                                    'pk': r.choice(a), 'others': r.sample(b, min(len(b), 2)), 'to': r.choice(b)})
        return ops

    def sweep_noops(self):
        """Every column written with the value it has, by every API, also NULL and empty ones."""
        ops = []
        for m in self.work:
            pks = self.pks(m)
            for f in [x for x in self.base_fields(m) if x not in self.fixed]:
                if f not in m._meta.local_fields:
                    continue
                for v in self.transitions(m, f)[:4]:
                    for how in ('qs', 'raw', 'save', 'only'):
                        pk = self.rng.choice(pks)
                        ops.append({'op': 'update', 'm': m.__name__, 'how': 'save', 'pks': [pk], 'vals': {f.attname: v}})
                        ops.append({'op': 'noop', 'm': m.__name__, 'how': how, 'pks': [pk], 'fs': [f.attname]})
        return ops

    def sweep_rows(self):
        """Ways to create and delete (generated one by one: they depend on what is there)."""
        for m in self.work:
            for how in ('save', 'create', 'bulk', 'raw', 'goc', 'clone', 'force'):
                if (m._meta.parents or m in self.orm_only) and how in ('bulk', 'raw'):
                    continue
                try:
                    vals = self.gen_vals(m)
                    pk = self.new_pk(m)
                except LookupError:
                    continue
                if pk is not None:
                    vals[m._meta.pk.attname] = pk
                op = {'op': 'create', 'm': m.__name__, 'how': how, 'rows': [vals]}
                if how == 'clone':
                    pks = self.pks(m)
                    if not pks:
                        continue
                    op.update(of=self.rng.choice(pks), adding=self.rng.random() < 0.5)
                yield op
        for m in self.work:
            for how in ('inst', 'qs', 'raw'):
                pks = self.pks(m)
                if pks:
                    yield {'op': 'delete', 'm': m.__name__, 'how': how, 'pks': [self.rng.choice(pks)]}

    def wipe(self):
        """An empty database again, without going through denorm."""
        from denorm.models import DirtyInstance
        for m in self.models.values():
            for f in m._meta.local_many_to_many:
                f.remote_field.through._base_manager.using(self.using).all()._raw_delete(self.using)
        left = [m for m in self.models.values()]
        for _ in range(12):
            again = []
            for m in left:
                try:
                    with transaction.atomic(using=self.using):
                        nulls = dict((f.name, None) for f in m._meta.local_fields if f.is_relation and f.null)
                        qs = m._base_manager.using(self.using).all()
                        if nulls:
                            qs.update(**nulls)
                        qs._raw_delete(self.using)
                except Exception:
                    again.append(m)
            left = again
            if not left:
                break
        else:
            raise RuntimeError('cannot empty %s' % left)
        DirtyInstance.objects.using(self.using).all()._raw_delete(self.using)
        self.pool.clear()

    # ------------------------------------------------------------------ observation
    def rows(self, m):
        return list(m._base_manager.using(self.using).order_by('pk'))

    def expected(self, m, fn, o):
        """(stored, expected) of one callback field of one freshly loaded row."""
        f = m._meta.get_field(fn.__name__)
        if isinstance(f, models.ManyToManyField):
            stored = sorted(x.pk for x in getattr(o, f.name).all())
            want = sorted(set(getattr(x, 'pk', x) for x in fn(o)))
            return stored, want
        stored = getattr(o, f.attname)
        want = fn(o)
        if isinstance(f, models.ForeignKey) and isinstance(want, models.Model):
            want = getattr(want, f.target_field.attname)
        return stored, want

    def markers(self):
        from denorm.models import DirtyInstance
        return list(DirtyInstance.objects.using(self.using).values_list('content_type_id', 'object_id'))

    def marked(self):
        """(model, pk) of everything recorded as dirty."""
        out = set()
        by_ct = {}
        for m in self.models.values():
            by_ct.setdefault(ContentType.objects.get_for_model(m).pk, m)
        for ct, oid in self.markers():
            m = by_ct.get(ct)
            if m is None or oid is None:
                continue
            try:
                out.add((m, m._meta.pk.to_python(oid) if not m._meta.pk.remote_field else
                         m._meta.pk.target_field.to_python(oid)))
            except Exception:
                pass
        return out

    def stale(self):
        """Callback fields whose stored value is not what the function returns now."""
        out = []
        for m in self.models.values():
            fns = self.callbacks[m]
            if not fns:
                continue
            for o in self.rows(m):
                for fn in fns:
                    self.cov['callback_values_compared'] += 1
                    # a fresh instance per function: nothing cached on the instance leaks between functions
                    stored, want = self.expected(m, fn, o)
                    if stored != want:
                        out.append((m, o.pk, fn.__name__, stored, want))
        return out

    def wrong_aggregates(self):
        out = []
        for m, lst in self.aggs.items():
            if not lst:
                continue
            for o in self.rows(m):
                for f, fn in lst:
                    self.cov['aggregate_values_compared'] += 1
                    want = fn(o)
                    if getattr(o, f) != want:
                        out.append((m, o.pk, f, getattr(o, f), want))
        return out

    def callbacks_of(self, m):
        out = []
        for x in m.__mro__:
            for fn in self.callbacks.get(x, ()):
                out.append(fn)
        return out

    def aggs_of(self, m):
        out = []
        for x in m.__mro__:
            out.extend(self.aggs.get(x, ()))
        return out

    def aggregate_values(self):
        out = {}
        for m, lst in self.aggs.items():
            for f, _ in lst:
                for pk, v in m._base_manager.using(self.using).values_list('pk', f):
                    out[(m, pk, f)] = v
        return out

    def fingerprints(self):
        out = {}
        for m, lst in self.keys.items():
            if not lst:
                continue
            for o in self.rows(m):
                for f, fn in lst:
                    self.cov['keys_observed'] += 1
                    own = tuple(repr(getattr(o, x.attname)) for x in m._meta.concrete_fields
                                if x.name not in self.derived[m])
                    out[(m, o.pk, f)] = (getattr(o, f), repr(sorted(fn(o), key=repr)), own)
        return out

    def dependencies(self):
        """(model, pk) -> everything that may give reason to recalculate the fields of the row."""
        out = {}
        skipped = getattr(self.case(), 'SKIPPED', {})
        for m in self.models.values():
            fn = spec.DEPENDS.get(m.__name__)
            if fn is None:
                continue
            for o in self.rows(m):
                own = tuple(repr(getattr(o, f.attname)) for f in m._meta.local_concrete_fields
                            if f.name not in skipped.get(m.__name__, ()))
                out[(m, o.pk)] = (own, sorted(repr(x) for x in fn(o)))
        return out

    def marks(self):
        """How often each (model, pk) is recorded."""
        by_ct = dict((ContentType.objects.get_for_model(m).pk, m) for m in self.models.values()
                     if m.__name__ in spec.DEPENDS)
        out = collections.Counter()
        for ct, oid in self.markers():
            if ct in by_ct and oid is not None:
                m = by_ct[ct]
                f = m._meta.pk.target_field if m._meta.pk.remote_field else m._meta.pk
                out[(m, f.to_python(oid))] += 1
        return out

    def snapshot(self, base_only=False, markers=True):
        """Every row of every table of the case (optionally only user-written columns)."""
        conn = self.conn()
        out = {}
        for m in self.models.values():
            fields = list(m._meta.local_concrete_fields)
            if base_only:
                fields = [f for f in fields if f.name not in self.derived[m]]
            out[m.__name__] = self._dump(conn, m._meta.db_table, [f.column for f in fields])
            for f in m._meta.local_many_to_many:
                if base_only and f.name in self.derived[m]:
                    continue
                if f.remote_field.through._meta.auto_created:
                    out[m.__name__ + '.' + f.name] = self._dump(
                        conn, f.m2m_db_table(), [f.m2m_column_name(), f.m2m_reverse_name()])
        if markers and not base_only:
            out['dirty'] = sorted(self.markers(), key=repr)
        return out

    def _dump(self, conn, table, cols):
        qn = conn.ops.quote_name
        if not cols:
            return []
        with conn.cursor() as c:
            c.execute("SELECT %s FROM %s" % (", ".join(qn(x) for x in cols), qn(table)))
            return sorted((tuple(bytes(v) if isinstance(v, memoryview) else v for v in row) for row in c.fetchall()),
                          key=repr)


WEIGHTS = collections.OrderedDict([
    ('create', 26), ('update', 36), ('delete', 9), ('m2m', 12), ('rel', 6), ('noop', 4), ('load', 6), ('txn', 7),
])


def diff(a, b):
    out = {}
    for k in sorted(set(a) | set(b)):
        x, y = a.get(k), b.get(k)
        if x != y:
            out[k] = {'before': [r for r in (x or []) if r not in (y or [])][:5],
                      'after': [r for r in (y or []) if r not in (x or [])][:5]}
    return out
