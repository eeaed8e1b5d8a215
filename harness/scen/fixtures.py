"""Dump a database as a fixture, change the order, the derived values and the rows there are, load it and compare."""
import io
import json
import os
import shutil
import tempfile

import boot
from common import Violation, flush, seeded


def run(cfg, res):
    boot.setup()
    from denorm import denorms
    from django.core.management import call_command
    from django.core.management.color import no_style
    from django.db import IntegrityError, connection, models
    from engine import World, diff
    rng = seeded(cfg['seed'], 'fixtures', cfg['case'], cfg.get('stream', cfg['backend']))
    w = World(rng, max_rows=cfg.get('rows', 5))
    scratch = tempfile.mkdtemp(prefix="vd.", dir="/tmp")

    def empty():
        denorms.drop_triggers()
        w.wipe()
        if connection.vendor == 'postgresql':
            # loading sets them to the greatest key, which is one that was given
            with connection.cursor() as c:
                for sql in connection.ops.sequence_reset_by_name_sql(no_style(), connection.introspection.sequence_list()):
                    c.execute(sql)
        denorms.install_triggers()

    def content():
        out = w.snapshot(base_only=True)
        for m in w.models.values():
            if m._meta.order_with_respect_to:
                # Django numbers the rows anew
                out.pop(m.__name__)
            for f in m._meta.local_many_to_many:
                if f.remote_field.symmetrical:
                    # loading completes links that were there in one direction only
                    out.pop('%s.%s' % (m.__name__, f.name), None)
        return out

    def spoil(rows):
        """Other values than those the functions give."""
        by_label = dict((m._meta.label_lower, m) for m in w.models.values())
        for r in rows:
            m = by_label.get(r['model'])
            for f in m._meta.local_fields if m else ():
                if f.name not in r['fields'] or f.name not in w.derived[m] or rng.random() < 0.5:
                    continue
                if f.name in [x for x, _ in w.aggs[m]]:
                    r['fields'][f.name] = rng.choice([0, 1, 2, 50])
                elif isinstance(f, models.TextField):
                    r['fields'][f.name] = rng.choice(['', 'wrong', '%s'])

    def load(rows):
        path = os.path.join(scratch, "rows.json")
        with open(path, "w") as f:
            json.dump(rows, f)
        call_command('loaddata', path, verbosity=0)

    try:
        for i in range(cfg['n']):
            empty()
            res.trace.clear()
            w.populate(rng.randint(1, 2))
            for _ in range(rng.randint(0, 6)):
                op = w.gen()
                res.trace.append(op)
                w.apply(op)
            flush(w)
            out = io.StringIO()
            call_command('dumpdata', 'vcase', stdout=out, use_base_manager=True)
            rows = json.loads(out.getvalue())
            if not rows:
                continue
            base = content()
            mode = rng.choice(['empty', 'empty', 'over', 'twice'])
            order = rng.choice(['given', 'reversed', 'shuffled'])
            damaged = rng.random() < 0.6
            if order == 'reversed':
                rows.reverse()
            elif order == 'shuffled':
                rng.shuffle(rows)
            if damaged:
                spoil(rows)
            if mode == 'over':
                for _ in range(rng.randint(1, 6)):
                    op = w.gen()
                    res.trace.append(op)
                    w.apply(op)
                if rng.random() < 0.5:
                    flush(w)
            else:
                empty()
            res.trace.append({'load': rows, 'mode': mode, 'order': order, 'damaged': damaged})
            try:
                load(rows)
                if mode == 'twice':
                    load(rows)
            except IntegrityError:
                # a row that was created meanwhile has the value of one in the fixture
                if mode != 'over':
                    raise
                res.cov['conflicts'] += 1
                continue
            res.cov['loads'] += 1
            res.cov['rows_loaded'] += len(rows)
            for m, pk, f, stored, want in w.wrong_aggregates():
                raise Violation("loaded_count", "%s(%r).%s is %r after loading, but %r rows/units are related" % (
                    m.__name__, pk, f, stored, want), mode=mode, order=order)
            marked = w.marked()
            stale = w.stale()
            for m, pk, f, stored, want in stale:
                if (m, pk) not in marked:
                    raise Violation("loaded_silent", "%s(%r).%s is %r after loading, the function returns %r, and nothing records it"
                                    % (m.__name__, pk, f, stored, want), mode=mode, order=order)
            now = content()
            if mode != 'over' and now != base:
                raise Violation("loaded_rows", "loading gave other rows than were dumped", diff=diff(base, now), order=order)
            flush(w)
            for m, pk, f, stored, want in w.stale():
                raise Violation("loaded_flush", "%s(%r).%s is %r after loading and flushing, the function returns %r" % (
                    m.__name__, pk, f, stored, want), mode=mode, order=order)
            for m, pk, f, stored, want in w.wrong_aggregates():
                raise Violation("loaded_count", "%s(%r).%s is %r after loading and flushing, but %r rows/units are related" % (
                    m.__name__, pk, f, stored, want), mode=mode, order=order)
            res.note((mode, order, damaged, tuple(sorted(set(r['model'] for r in rows))), len(rows)), mode=mode, order=order,
                     damaged=damaged, rows=len(rows), out_of_date=len(stale))
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
