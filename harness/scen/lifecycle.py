"""Sequences of installing and dropping the triggers by function and command, on two databases, next to triggers of others,
with what the database really has read from its catalog after every step."""
import contextlib
import io
import re

import boot
from common import Violation, seeded


def catalog(alias):
    """name -> (table, definition) of every trigger the database has; a list, so that duplicates show."""
    from django.db import connections
    conn = connections[alias]
    with conn.cursor() as c:
        if conn.vendor == 'sqlite':
            c.execute("SELECT name, tbl_name, sql FROM sqlite_master WHERE type = 'trigger'")
        elif conn.vendor == 'postgresql':
            c.execute("SELECT t.tgname, c.relname, pg_get_triggerdef(t.oid) || p.prosrc FROM pg_trigger t "
                      "JOIN pg_class c ON c.oid = t.tgrelid JOIN pg_proc p ON p.oid = t.tgfoid WHERE NOT t.tgisinternal")
        else:
            c.execute("SELECT trigger_name, event_object_table, CONCAT(action_timing, event_manipulation, "
                      "action_statement) FROM information_schema.triggers WHERE trigger_schema = DATABASE()")
        return sorted((n, t, re.sub(r'\s+', ' ', d if isinstance(d, str) else d.decode())) for n, t, d in c.fetchall())


def foreign(alias, name, table, marker):
    """Somebody else's trigger."""
    from django.db import connections
    conn = connections[alias]
    qn = conn.ops.quote_name
    with conn.cursor() as c:
        if conn.vendor == 'sqlite':
            c.execute("CREATE TRIGGER %s AFTER UPDATE ON %s BEGIN INSERT INTO audit (what) VALUES ('%s'); END" % (
                qn(name), qn(table), marker))
        elif conn.vendor == 'postgresql':
            c.execute("CREATE OR REPLACE FUNCTION %s() RETURNS TRIGGER AS $$ BEGIN INSERT INTO audit (what) VALUES ('%s'); "
                      "RETURN NULL; END; $$ LANGUAGE plpgsql" % (qn('f_' + name), marker))
            c.execute("CREATE TRIGGER %s AFTER UPDATE ON %s FOR EACH ROW EXECUTE PROCEDURE %s()" % (
                qn(name), qn(table), qn('f_' + name)))
        else:
            c.execute("CREATE TRIGGER %s AFTER UPDATE ON %s FOR EACH ROW INSERT INTO audit (what) VALUES ('%s')" % (
                qn(name), qn(table), marker))


def remove(alias, name, table):
    from django.db import connections
    conn = connections[alias]
    qn = conn.ops.quote_name
    with conn.cursor() as c:
        if conn.vendor == 'postgresql':
            c.execute("DROP TRIGGER IF EXISTS %s ON %s" % (qn(name), qn(table)))
        else:
            c.execute("DROP TRIGGER IF EXISTS %s" % qn(name))


def script(text):
    """Run what denorm_sql printed, the way one would paste it into the database's shell."""
    from django.db import connection
    if connection.vendor == 'sqlite':
        connection.cursor().connection.executescript(text)
    elif connection.vendor == 'postgresql':
        with connection.cursor() as c:
            c.execute(text)
    else:
        for part in re.split(r'\n(?=CREATE TRIGGER)', text):
            if part.strip():
                with connection.cursor() as c:
                    c.execute(part)


def run(cfg, res):
    boot.setup(install=False)
    from denorm import denorms
    from denorm.models import DirtyInstance
    from django.contrib.contenttypes.models import ContentType
    from django.core.management import call_command
    from django.db import connections, DatabaseError
    from engine import World
    rng = seeded(cfg['seed'], 'lifecycle', cfg['case'], cfg.get('stream', cfg['backend']))
    aliases = ['default', 'other']
    call_command("migrate", run_syncdb=True, verbosity=0, interactive=False, database='other')
    worlds = dict((a, World(rng, using=a)) for a in aliases)
    cts = [dict(ContentType.objects.using(a).values_list('model', 'pk')) for a in aliases]
    if cts[0] != cts[1]:
        raise RuntimeError("the two databases do not agree about content types")
    for a in aliases:
        with connections[a].cursor() as c:
            c.execute("CREATE TABLE audit (what VARCHAR(20))")
            c.execute("CREATE TABLE elsewhere (n INTEGER)")

    table = cfg['table']
    others = [('audit_update', table), ('mydenorm_x', table), ('denormal', 'elsewhere'), ('Denormx_on_it', 'elsewhere')]
    full = None
    has = dict((a, False) for a in aliases)      # installed?
    extra = dict((a, set()) for a in aliases)    # names of others' triggers
    left = dict((a, False) for a in aliases)     # a trigger of an older version of the models

    def mine(a):
        return [t for t in catalog(a) if t[0] not in extra[a]]

    def verify(step):
        """Exactly the right triggers in both databases."""
        for a in aliases:
            cat = catalog(a)
            names = [t[0] for t in cat]
            for n in extra[a]:
                if names.count(n) != 1:
                    raise Violation("foreign_trigger", "the trigger %s of somebody else is gone" % n, step=step, alias=a)
            got = [t for t in cat if t[0] not in extra[a]]
            if left[a]:
                got = [t for t in got if t[0] != 'denorm_after_row_update_on_elsewhere']
                if 'denorm_after_row_update_on_elsewhere' not in names:
                    raise Violation("triggers_differ", "an installation removed a trigger", step=step, alias=a)
            want = full if has[a] else []
            if got != want:
                raise Violation("triggers_differ", "database %r has %d triggers instead of %d" % (a, len(got), len(want)),
                                step=step, missing=[t[:2] for t in want if t not in got][:5],
                                unexpected=[t[:2] for t in got if t not in want][:5])
        res.note((cfg['case'], step, tuple(has.values()), tuple(sorted(map(tuple, extra.values()))), tuple(left.values())),
                 step=step, triggers=len(full), installed=dict(has))

    def behaves(a):
        """A change is recorded if and only if the triggers are there."""
        w = worlds[a]
        with connections[a].cursor() as c:
            c.execute("DELETE FROM audit")
        w.wipe()
        for m in w.work:
            if not w.callbacks[m] or m._meta.parents:
                continue
            try:
                vals = w.gen_vals(m)
                pk = w.new_pk(m)
            except LookupError:
                continue
            if pk is not None:
                vals[m._meta.pk.attname] = pk
            w.raw_insert(m, vals)
        recorded = DirtyInstance.objects.using(a).count()
        if bool(recorded) != has[a]:
            raise Violation("triggers_dead", "triggers %sinstalled in %r but %d records after changes" % (
                '' if has[a] else 'not ', a, recorded))
        b = [x for x in aliases if x != a][0]
        if a == 'other' and DirtyInstance.objects.using(b).exists():
            raise Violation("triggers_dead", "changes in %r were recorded in %r" % (a, b))
        w.wipe()
        res.cov['behaviour_checked'] += 1

    # what the models need, once
    denorms.install_triggers()
    full = mine('default')
    has['default'] = True
    need = set((t[1]) for t in full)
    if not need or len(set(t[0] for t in full)) != len(full):
        raise Violation("triggers_differ", "installed triggers are not distinct", names=[t[0] for t in full])
    verify('first')
    behaves('default')
    for a in aliases:
        DirtyInstance.objects.using(a).all().delete()

    for i in range(cfg['n']):
        a = rng.choice(aliases)
        step = rng.choice(['install', 'install_cmd', 'drop', 'drop_cmd', 'drop', 'drop_cmd', 'again', 'foreign', 'unforeign',
                           'old', 'sql', 'conflict', 'behave', 'refresh'])
        res.trace.append((step, a))
        using = None if a == 'default' and rng.random() < 0.5 else a
        if step in ('install', 'install_cmd', 'again'):
            if step != 'again' and has[a]:
                # as documented: drop, then install
                denorms.drop_triggers(using=using)
                has[a] = left[a] = False
                verify('drop before ' + step)
            before = catalog(a)
            try:
                if step == 'install':
                    denorms.install_triggers(using=using)
                elif using is None:
                    call_command('denorm_init')
                else:
                    call_command('denorm_init', database=using)
                has[a] = True
            except DatabaseError:
                if not has[a]:
                    raise
                # refused; nothing may have changed
                if catalog(a) != before:
                    raise Violation("triggers_differ", "a refused installation changed something", alias=a)
                res.cov['second_installation_refused'] += 1
        elif step == 'refresh':
            denorms.drop_triggers(using=using)
            denorms.install_triggers(using=using)
            has[a] = True
            left[a] = False
        elif step in ('drop', 'drop_cmd'):
            if step == 'drop':
                denorms.drop_triggers(using=using)
            elif using is None:
                call_command('denorm_drop')
            else:
                call_command('denorm_drop', database=using)
            has[a] = left[a] = False
        elif step == 'foreign':
            name, t = rng.choice(others)
            if name not in extra[a] and (connections[a].vendor != 'mysql' or True):
                foreign(a, name, t, name[:20])
                extra[a].add(name)
        elif step == 'unforeign':
            for name, t in others:
                if name in extra[a]:
                    remove(a, name, t)
                    extra[a].discard(name)
                    break
        elif step == 'old':
            if not left[a]:
                foreign(a, 'denorm_after_row_update_on_elsewhere', 'elsewhere', 'old')
                left[a] = True
        elif step == 'sql':
            if a != 'default':
                continue
            out = io.StringIO()
            with contextlib.redirect_stdout(out):
                call_command('denorm_sql')
            before = catalog(a)
            denorms.drop_triggers()
            left[a] = False
            script(out.getvalue())
            has[a] = True
            res.cov['printed_statements_executed'] += 1
        elif step == 'conflict':
            # an installation that fails half way
            if has[a] or connections[a].vendor == 'mysql':
                continue
            last = rng.choice(full)
            if any(t[0] == last[0] for t in catalog(a)):
                continue
            if left[a]:
                continue
            foreign(a, last[0], last[1], 'conflict')
            before = catalog(a)
            try:
                denorms.install_triggers(using=using)
            except DatabaseError:
                if catalog(a) != before:
                    raise Violation("triggers_half", "a failed installation left %d triggers behind" % (
                        len(catalog(a)) - len(before)), alias=a)
                res.cov['failed_installations'] += 1
                remove(a, last[0], last[1])
            else:
                denorms.drop_triggers(using=using)
        elif step == 'behave':
            behaves(a)
        res.cov['step:' + step] += 1
        verify(step)
