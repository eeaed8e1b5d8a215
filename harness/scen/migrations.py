"""Generate, write, load and apply migrations for the models of a case, whole and field by field, and work with the
historical models."""
import re

import boot
from common import Violation, seeded

LABEL = 'vcase'


def columns(alias):
    """What the database says about the tables: table -> column -> (type, nullable)."""
    from django.db import connections
    conn = connections[alias]
    out = {}
    with conn.cursor() as c:
        if conn.vendor == 'sqlite':
            for t in conn.introspection.table_names(c):
                c.execute("PRAGMA table_info(%s)" % conn.ops.quote_name(t))
                out[t] = dict((r[1], (r[2].lower(), bool(r[3]))) for r in c.fetchall())
        else:
            schema = "current_schema()" if conn.vendor == 'postgresql' else "DATABASE()"
            c.execute("SELECT table_name, column_name, %s, is_nullable FROM information_schema.columns "
                      "WHERE table_schema = %s" % (
                          "data_type || COALESCE(character_maximum_length::text, '')" if conn.vendor == 'postgresql'
                          else "column_type", schema))
            for t, col, ty, null in c.fetchall():
                out.setdefault(t, {})[col] = (ty, null)
        for t in out:
            # indexes and constraints, whatever they are called
            out[t]['#'] = sorted(set(
                repr((sorted(k['columns']), bool(k['unique']), bool(k['primary_key']), k['foreign_key']))
                for k in conn.introspection.get_constraints(c, t).values() if not k.get('check')
                # MySQL has an index for every foreign key anyway
                if conn.vendor != 'mysql' or k['unique'] or k['foreign_key'] or len(k['columns']) > 1))
    return dict((t, c) for t, c in out.items() if t != 'django_migrations')


def run(cfg, res):
    boot.setup(install=False)
    from django.apps import apps
    from django.db import connections, models
    from django.db.migrations import autodetector, loader, migration, questioner, state, writer
    from engine import World
    rng = seeded(cfg['seed'], 'migrations', cfg['case'], cfg.get('stream', cfg['backend']))
    w = World(rng)
    want = columns('default')
    derived = {}
    for m in apps.get_app_config(LABEL).get_models():
        if not m._meta.proxy:
            local = set(f.name for f in list(m._meta.local_fields) + list(m._meta.local_many_to_many))
            derived[m._meta.model_name] = sorted(w.derived.get(m, set()) & local)

    class Ask(questioner.MigrationQuestioner):
        """Defaults for columns added to existing rows."""

        def ask_not_null_addition(self, field_name, model_name):
            f = apps.get_model(LABEL, model_name)._meta.get_field(field_name)
            if isinstance(f, (models.CharField, models.TextField)):
                return ''
            if isinstance(f, models.IntegerField):
                return 0
            return None

        ask_not_null_alteration = ask_not_null_addition

        def ask_rename(self, *a, **kw):
            return False
        ask_rename_model = ask_rename

        def ask_auto_now_add_addition(self, field_name, model_name):
            import datetime
            return datetime.datetime(2000, 1, 1)

    def others():
        """The project without this application."""
        full = state.ProjectState.from_apps(apps)
        base = state.ProjectState()
        for key, ms in full.models.items():
            if key[0] != LABEL:
                base.add_model(ms.clone())
        return base

    def detect(before):
        det = autodetector.MigrationAutodetector(before, state.ProjectState.from_apps(apps),
                                                 Ask(defaults={'ask_initial': True}))
        graph = loader.MigrationGraph()
        for a in sorted(set(k[0] for k in before.models)):
            graph.add_node((a, '0001_initial'), migration.Migration('0001_initial', a))
        changes = det.changes(graph=graph, convert_apps=set([LABEL]))
        return changes.get(LABEL, [])

    def load(mig):
        """Through the text that would be written into a file."""
        wr = writer.MigrationWriter(mig)
        text = wr.as_string()
        if isinstance(text, bytes):
            text = text.decode()
        if re.search(r'vcase\.cases\.\w+\.[A-Z]', text) or 'DenormDBField' in text:
            raise Violation("migration_refers", "a migration refers to the functions of the models", text=text[:3000])
        ns = {'__name__': 'm'}
        exec(compile(text, '<migration %s>' % mig.name, 'exec'), ns)
        res.cov['migrations_written'] += 1
        res.cov['operations'] += len(mig.operations)
        return ns['Migration'](mig.name, LABEL), text

    def apply(migs, st, alias):
        for mig in migs:
            m, text = load(mig)
            with connections[alias].schema_editor(atomic=m.atomic and connections[alias].features.can_rollback_ddl) as ed:
                st = m.apply(st, ed)
        return st

    def drop(alias):
        """An empty database again."""
        conn = connections[alias]
        with conn.cursor() as c:
            tables = conn.introspection.table_names(c)
            qn = conn.ops.quote_name
            if conn.vendor == 'postgresql':
                for t in tables:
                    c.execute("DROP TABLE IF EXISTS %s CASCADE" % qn(t))
            else:
                c.execute("PRAGMA foreign_keys = OFF" if conn.vendor == 'sqlite' else "SET foreign_key_checks = 0")
                for t in tables:
                    c.execute("DROP TABLE %s" % qn(t))
                c.execute("PRAGMA foreign_keys = ON" if conn.vendor == 'sqlite' else "SET foreign_key_checks = 1")

    def same(alias, what):
        got = columns(alias)
        for t in want:
            if t in ('django_content_type', 'denorm_dirtyinstance'):
                continue
            if got.get(t) != want[t]:
                a, b = want[t], got.get(t) or {}
                raise Violation("migration_columns", "table %s differs from what the models create, %s" % (t, what),
                                missing=[c for c in a if c not in b], unexpected=[c for c in b if c not in a],
                                different=dict((c, (a[c], b[c])) for c in a if c in b and a[c] != b[c]))
        return sum(len(c) for c in want.values())

    def again(st, what):
        left = detect(st)
        if left:
            raise Violation("migration_again", "generating again finds changes, " + what,
                            operations=[repr(o)[:200] for m in left for o in m.operations][:6])

    def use(st, alias):
        """Rows written and read by the historical models."""
        n = 0
        hist = st.apps
        made = {}
        todo = [m for m in hist.get_models() if m._meta.app_label == LABEL and not m._meta.proxy]
        for _ in range(6):
            later = []
            for m in todo:
                real = apps.get_model(LABEL, m._meta.object_name)
                vals = {}
                ok = True
                for f in m._meta.fields:
                    if f.name in w.derived.get(real, ()):
                        continue
                    if f.remote_field and f.remote_field.model._meta.object_name == 'ContentType':
                        ok = False
                        continue
                    if isinstance(f, models.ForeignKey):
                        if getattr(f.remote_field, 'parent_link', False):
                            continue
                        cand = made.get(f.remote_field.model._meta.model_name)
                        if cand:
                            vals[f.name] = cand[0]
                        elif not f.null:
                            ok = False
                    elif f.primary_key:
                        if not isinstance(f, models.AutoField):
                            try:
                                vals[f.name] = w.new_pk(real)
                            except LookupError:
                                ok = False
                    elif not f.has_default() or rng.random() < 0.5:
                        v = w.value(real, real._meta.get_field(f.name))
                        vals[f.name] = v
                if not ok:
                    later.append(m)
                    continue
                for f in m._meta.fields:
                    # a plain column: the application's migration has to fill it
                    if f.name in w.derived.get(real, ()) and not f.null and not f.has_default() and not f.is_relation:
                        vals[f.name] = 0 if isinstance(f, models.IntegerField) else ''
                o = m(**vals)
                o.save(using=alias)
                made.setdefault(m._meta.model_name, []).append(o)
                n += 1
            todo = later
        for name, objs in made.items():
            for o in objs:
                fresh = type(o)._base_manager.using(alias).get(pk=o.pk)
                fresh.save(using=alias)
                again_ = type(o)._base_manager.using(alias).get(pk=o.pk)
                for f in fresh._meta.concrete_fields:
                    if not f.is_relation and getattr(again_, f.attname) != getattr(fresh, f.attname) and \
                            not isinstance(f, models.BigIntegerField) and not getattr(f, 'auto_now', False):
                        raise Violation("migration_rows", "%s.%s changed by saving it in a migration: %r, %r" % (
                            name, f.name, getattr(fresh, f.attname), getattr(again_, f.attname)))
                type(o)._base_manager.using(alias).filter(pk=o.pk).update(**dict(
                    (f.name, getattr(fresh, f.attname)) for f in fresh._meta.local_fields
                    if not f.primary_key and not f.is_relation))
        for name, objs in made.items():
            type(objs[0])._base_manager.using(alias).count()
        return n

    # everything at once
    alias = 'other'

    def start():
        drop(alias)
        st = others()
        with connections[alias].schema_editor() as ed:
            for m in st.apps.get_models():
                ed.create_model(m)
        return st

    st = start()
    st = apply(detect(others()), st, alias)
    n = same(alias, "created at once")
    again(st, "after creating everything at once")
    rows = use(st, alias)
    res.note((cfg['case'], 'all'), tables=len(want), columns=n, rows_by_historical_models=rows)
    res.cov['rows_by_historical_models'] += rows

    # the table of the package itself
    import importlib
    import pkgutil
    drop(alias)
    full = state.ProjectState.from_apps(apps)
    st = state.ProjectState()
    for key, ms in full.models.items():
        if key[0] == 'contenttypes':
            st.add_model(ms.clone())
    with connections[alias].schema_editor() as ed:
        for m in st.apps.get_models():
            ed.create_model(m)
    pkg = importlib.import_module('denorm.migrations')
    files = sorted(x[1] for x in pkgutil.iter_modules(pkg.__path__))
    for name in files:
        mig = importlib.import_module('denorm.migrations.' + name).Migration(name, 'denorm')
        with connections[alias].schema_editor(atomic=mig.atomic and connections[alias].features.can_rollback_ddl) as ed:
            st = mig.apply(st, ed)
    target = state.ProjectState()
    for key, ms in full.models.items():
        if key[0] in ('contenttypes', 'denorm'):
            target.add_model(ms.clone())
    graph = loader.MigrationGraph()
    graph.add_node(('contenttypes', '0001_initial'), migration.Migration('0001_initial', 'contenttypes'))
    graph.add_node(('denorm', files[-1]), migration.Migration(files[-1], 'denorm'))
    left = autodetector.MigrationAutodetector(st, target, Ask(defaults={'ask_initial': True})).changes(graph=graph)
    if left.get('denorm'):
        raise Violation("migration_again", "the migrations of the package do not make the models of the package",
                        operations=[repr(o)[:200] for m in left['denorm'] for o in m.operations][:6])
    got = columns(alias)
    for t in want:
        if t.startswith('denorm_') and got.get(t) != want[t]:
            raise Violation("migration_columns", "table %s differs from what the model of the package creates" % t,
                            want=want[t], got=got.get(t))
    res.note((cfg['case'], 'package'), migrations=files)

    # fields added later, with rows already there
    for i in range(cfg['n']):
        st = start()
        # take some of the fields out of the first migration
        absent = set((mn, f) for mn, fs in derived.items() for f in fs if rng.random() < 0.5)
        partial = others()
        target = state.ProjectState.from_apps(apps)
        for key, ms in target.models.items():
            if key[0] == LABEL:
                ms = ms.clone()
                ms.fields = [(n_, f) for n_, f in ms.fields if (key[1], n_) not in absent]
                there = set(n_ for n_, f in ms.fields)
                for opt in ('index_together', 'unique_together'):
                    if opt in ms.options:
                        ms.options[opt] = set(t for t in ms.options[opt] if there.issuperset(t))
                partial.add_model(ms)
        det = autodetector.MigrationAutodetector(others(), partial, Ask(defaults={'ask_initial': True}))
        first = det.changes(graph=loader.MigrationGraph()).get(LABEL, [])
        st = apply(first, st, alias)
        rows = use(st, alias)
        second = detect(st)
        st = apply(second, st, alias)
        same(alias, "with %s added later" % sorted(absent)[:5])
        again(st, "after adding fields")
        ops = tuple(sorted(set('%s:%s' % (type(o).__name__, getattr(o, 'name', '')) for m in second for o in m.operations)))
        res.note((cfg['case'], ops), added_later=ops[:8], rows_before=rows)
        res.cov['rows_by_historical_models'] += rows
    res.cov.update(w.cov)
