"""Another session commits a change, or a whole flush() of its own, between two statements of a running flush()."""
import traceback

import boot
from common import Violation, bounded, blame, flush, rows_total, seeded
from scen.history import names, sig
from session import Session, blocked


def run(cfg, res):
    boot.setup()
    import denorm
    from django.core.exceptions import ObjectDoesNotExist
    from django.db import connection, transaction, DatabaseError, IntegrityError
    from engine import World, diff
    from vcase import spec
    import threading
    rng = seeded(cfg['seed'], 'interleave', cfg['case'], cfg.get('stream', cfg['backend']))
    w = World(rng, max_rows=cfg.get('rows', 4))
    other = Session()
    main = threading.current_thread()
    log = []

    def hook(fn, obj):
        if threading.current_thread() is main:
            log.append(('call', type(obj), obj.pk))
    spec.HOOKS.append(hook)

    def work(op):
        if op['op'] == 'flush':
            with bounded(6000, "flush()"):
                denorm.flush()
        else:
            with transaction.atomic():
                w.apply(op)
        # what the application's columns are from now on
        return w.snapshot(base_only=True)

    length = 30
    for i in range(cfg['n']):
        if i % 15 == 0:
            w.wipe()
            res.trace.clear()
            w.populate(1)
            flush(w)
        for _ in range(rng.randint(1, 4)):
            op = w.gen()
            res.trace.append(op)
            w.apply(op)
        if not w.markers():
            continue
        weights = dict(create=12, update=50, delete=8, m2m=16)
        inject = {'op': 'flush'} if rng.random() < 0.15 else w.gen(weights)
        if rng.random() < 0.25:
            # what happens to one of the rows the flush is for
            there = [(m, pk) for m, pk in sorted(w.marked(), key=repr) if w.models.get(m.__name__) is m and pk in w.pks(m)]
            if there:
                m, pk = rng.choice(there)
                inject = {'op': 'delete', 'm': m.__name__, 'how': rng.choice(['inst', 'qs']), 'pks': [pk]}
                res.cov['row_being_flushed_deleted'] += 1
        target = rng.randint(1, max(6, length))
        res.trace.append({'op': 'flush', 'other session before statement': target, 'does': inject})
        del log[:]
        before = w.snapshot(base_only=True)
        state = {'n': 0, 'base': None, 'at': None, 'tries': 0}

        def wrapper(execute, sql, params, many, context):
            if threading.current_thread() is main:
                state['n'] += 1
                if state['base'] is None and state['n'] >= target and state['tries'] < 25:
                    try:
                        state['base'] = other.call(lambda: work(inject))
                        state['at'] = sql
                        log.append(('inject',))
                    except DatabaseError as e:
                        if not blocked(e):
                            raise
                        state['tries'] += 1
                        res.cov['other_session_had_to_wait'] += 1
                r = execute(sql, params, many, context)
                if sql.lstrip().upper().startswith('DELETE') and 'dirtyinstance' in sql:
                    log.append(('del',))
                return r
            return execute(sql, params, many, context)

        failed = None
        try:
            with bounded(6000 + 600 * rows_total(w), "flush()"):
                with connection.execute_wrapper(wrapper):
                    denorm.flush()
        except (DatabaseError, ObjectDoesNotExist) as e:
            if state['at'] is None:
                raise
            failed = e
        length = state['n']
        if state['at'] is None:
            res.cov['not_injected'] += 1
            flush(w)
            continue
        res.cov['injected:' + inject['op']] += 1
        at = log.index(('inject',))
        lo = max([j for j in range(at) if log[j][0] == 'del'] or [-1])
        hi = min([j for j in range(at, len(log)) if log[j][0] == 'del'] or [len(log)])
        # the objects whose values were computed between the two removals of records around the injection
        busy = set((e[1], e[2]) for e in log[lo + 1:hi] if e[0] == 'call')

        def in_window(m, pk):
            """The row was the one that was just being recomputed."""
            return len(busy) == 1 and all(pk == bpk and (issubclass(bm, m) or issubclass(m, bm)) for bm, bpk in busy)

        if failed is not None:
            # on the released code only writing back a row that was changed or deleted meanwhile can fail, or one whose new
            # value is a row that was deleted meanwhile; a function may fail that misses such a row
            gone = any(len(state['base'].get(k, ())) < len(rows) for k, rows in before.items())
            if len(busy) == 1 and (isinstance(failed, IntegrityError) or in_function(failed)) and (
                    gone or rows_of(w, busy, before) != rows_of(w, busy, state['base'])):
                res.known_finding('outdated-save', repr(failed)[:200])
                res.cov['known:outdated-save'] += 1
            else:
                raise failed
        marked = w.marked()
        stale = w.stale()
        lost = [s for s in stale if (s[0], s[1]) not in marked]
        for m, pk, f, stored, want in lost:
            if in_window(m, pk):
                res.known_finding('marker-window', '%s.%s' % (m.__name__, f))
                res.cov['known:marker-window'] += 1
                continue
            raise Violation("concurrent_lost", "%s(%r).%s is %r instead of %r after flush() and nothing records it" % (
                m.__name__, pk, f, stored, want), other_session=inject, before_statement=state['at'][:300],
                busy=sorted(busy, key=repr))
        base = w.snapshot(base_only=True)
        if base != state['base']:
            d = diff(state['base'], base)
            for name, change in d.items():
                m = w.models.get(name)
                ok = False
                if m is not None and len(busy) == 1:
                    bm, bpk = list(busy)[0]
                    k = [f.column for f in m._meta.local_concrete_fields if f.name not in w.derived[m]].index(
                        m._meta.pk.column)
                    ids = set(plain(row[k]) for row in change['before'] + change['after'])
                    ok = ids == set([plain(bpk)]) and (issubclass(bm, m) or issubclass(m, bm))
                if not ok:
                    raise Violation("concurrent_overwritten", "flush() undid a change another session made to rows it "
                                    "was not working on", diff=d, other_session=inject, before_statement=state['at'][:300])
            res.known_finding('outdated-save', sorted(d))
            res.cov['known:outdated-save'] += 1
        res.note((cfg['case'], sig(inject) if inject['op'] != 'flush' else 'flush', state['at'].split(' ')[0], names(stale),
                  len(busy)), other_session=inject, before_statement=state['at'][:160], out_of_date_and_recorded=names(
            [s for s in stale if s not in lost]))
        if failed is not None or lost or base != state['base']:
            # continue from a sound state
            for m, pk, f, stored, want in lost:
                mark(m, pk)
            if failed is not None:
                w.wipe()
                w.populate(1)
        flush(w)
        if w.markers():
            raise Violation("flush_left", "work left after flush()")
        for m, pk, f, stored, want in w.stale():
            raise Violation("concurrent_lost", "%s(%r).%s is %r instead of %r after the following flush()" % (
                m.__name__, pk, f, stored, want), other_session=inject, before_statement=state['at'][:300])
    other.close()
    res.cov.update(w.cov)


def rows_of(w, busy, snapshot):
    """The rows, as they are in a snapshot, of the objects that were being recomputed."""
    r = []
    for bm, bpk in busy:
        for m in [bm] + bm._meta.get_parent_list():
            k = [f.column for f in m._meta.local_concrete_fields if f.name not in w.derived[m]].index(m._meta.pk.column)
            r.append([row for row in snapshot.get(m.__name__, []) if plain(row[k]) == plain(bpk)])
    return r


def in_function(e):
    return any('/vcase/cases/' in f.filename for f in traceback.extract_tb(e.__traceback__))


def plain(pk):
    return str(pk).replace('-', '')


def mark(m, pk):
    from denorm.models import DirtyInstance
    from django.contrib.contenttypes.models import ContentType
    DirtyInstance.objects.create(content_type=ContentType.objects.get_for_model(m), object_id=str(pk))
