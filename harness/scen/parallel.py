"""Counters and sums with several sessions at work: another session commits between two statements of an operation, one has to
wait for another, and several sessions run freely against each other."""
import itertools
import threading

import boot
from common import Violation, bounded, seeded
from scen.history import sig
from session import Session, blocked


def check(w, what, **detail):
    wrong = w.wrong_aggregates()
    if wrong:
        m, pk, f, stored, want = wrong[0]
        raise Violation("wrong_aggregate", "%s(%r).%s is %r but %r rows/units are related, after %s" % (
            m.__name__, pk, f, stored, want, what), **detail)


KEYS = itertools.count(10000)


def world(cfg, rng, rows):
    from engine import World
    w = World(rng, max_rows=rows)
    # A row deleted by one session and made again, with the same key, by another one is a new row. A third session that refers to
    # it in the meantime counts for the old one, and the constraint, checked on commit, is satisfied by the new one.
    own = w.new_pk
    w.new_pk = lambda m: own(m) and next(KEYS)
    if cfg.get('work'):
        w.work = [m for m in w.work if m.__name__ in cfg['work']]
    return w


def injected(cfg, res):
    """One other commit before the k-th statement."""
    import denorm
    from django.core.exceptions import ObjectDoesNotExist
    from django.db import connection, transaction, DatabaseError, IntegrityError
    rng = seeded(cfg['seed'], 'parallel', cfg['case'], cfg.get('stream', cfg['backend']))
    w = world(cfg, rng, 5)
    other = Session()
    weights = dict(create=20, update=50, delete=10, load=10)
    length = 12
    for i in range(cfg['n']):
        if i % 25 == 0:
            w.wipe()
            res.trace.clear()
            w.populate(2)
        for _ in range(rng.randint(0, 2)):
            op = w.gen(weights)
            res.trace.append(op)
            w.apply(op)
        op = {'op': 'flush'} if rng.random() < 0.15 else w.gen(dict(create=15, update=60, delete=10))
        inject = w.gen(dict(create=30, update=50, delete=12))
        target = rng.randint(1, max(4, length))
        res.trace.append({'op': op, 'other session before statement': target, 'does': inject})
        before = w.aggregate_values()
        state = {'n': 0, 'at': None, 'tries': 0}

        def work():
            with transaction.atomic():
                w2.apply(inject)
        w2 = world(cfg, rng, 5)

        def wrapper(execute, sql, params, many, context):
            state['n'] += 1
            if state['at'] is None and state['n'] >= target and state['tries'] < 12:
                try:
                    other.call(work)
                    state['at'] = sql
                except IntegrityError:
                    # refers to what this session has just removed
                    state['tries'] = 99
                except DatabaseError as e:
                    if not blocked(e):
                        raise
                    state['tries'] += 1
            return execute(sql, params, many, context)
        try:
            with bounded(20000, "operation"):
                with connection.execute_wrapper(wrapper):
                    if op['op'] == 'flush':
                        denorm.flush()
                    else:
                        w.apply(op)
        except (IntegrityError, ObjectDoesNotExist):
            # the other session removed a row this one refers to
            if state['at'] is None:
                raise
            res.cov['refused_by_constraint'] += 1
        except DatabaseError as e:
            if not blocked(e) and not (state['at'] and 'Save with update_fields' in str(e)):
                raise
            res.cov['gave_way'] += 1
        length = state['n']
        w.pool.clear() if rng.random() < 0.1 else None
        check(w, "a commit of another session in the middle of an operation", op=op, other=inject,
              before_statement=(state['at'] or '')[:300])
        now = w.aggregate_values()
        changed = tuple(sorted(set('%s.%s' % (k[0].__name__, k[2]) for k in now if before.get(k) != now[k])))
        if state['at'] is not None and changed:
            res.cov['injected'] += 1
            res.note(('inject', sig(op), sig(inject), state['at'].split(' ')[0], changed), op=op, other_session=inject,
                     before_statement=state['at'][:160], counters_changed=changed)
        else:
            res.trivial()
        if rng.random() < 0.25:
            with bounded(20000, "flush()"):
                denorm.flush()
            check(w, "flush()")
    other.close()
    res.cov.update(w.cov)


def overlap(cfg, res):
    """One session has to wait for another that has changed the same counters and not yet committed."""
    from django.core.exceptions import ObjectDoesNotExist
    from django.db import connection, transaction, DatabaseError, IntegrityError
    rng = seeded(cfg['seed'], 'overlap', cfg['case'], cfg.get('stream', cfg['backend']))
    w = world(cfg, rng, 4)
    w2 = world(cfg, rng, 4)
    weights = dict(create=40, update=40, delete=15)
    for i in range(cfg['n']):
        if i % 20 == 0:
            w.wipe()
            res.trace.clear()
            w.populate(1)
        first = [w.gen(weights) for _ in range(rng.randint(1, 2))]
        # more often than not the same kind of row is involved
        second = w.gen(weights)
        for _ in range(4):
            if second.get('m') == first[0].get('m'):
                break
            second = w.gen(weights)
        res.trace.append({'first session': first, 'second session': second})
        before = w.aggregate_values()
        done = threading.Event()
        out = []

        def go():
            try:
                with transaction.atomic():
                    w2.apply(second)
                out.append(None)
            except BaseException as e:
                out.append(e)
            finally:
                connection.close()
                done.set()
        thread = threading.Thread(target=go, daemon=True)
        try:
            with transaction.atomic():
                for op in first:
                    w.apply(op)
                thread.start()
                waited = not done.wait(0.04)
        except (IntegrityError, ObjectDoesNotExist):
            res.cov['refused_by_constraint'] += 1
        except DatabaseError as e:
            if not blocked(e) and 'Record has changed' not in str(e):
                raise
            res.cov['gave_way'] += 1
        if thread.ident is None:
            res.trivial()
            continue
        thread.join()
        e = out[0]
        if e is not None:
            if isinstance(e, (IntegrityError, ObjectDoesNotExist)):
                res.cov['refused_by_constraint'] += 1
            elif isinstance(e, DatabaseError) and (blocked(e) or any(
                    x in str(e) for x in ('Record has changed', 'Save with update_fields', 'could not serialize'))):
                res.cov['gave_way'] += 1
            else:
                raise e
        check(w, "a session that waited for another one", first=first, second=second)
        now = w.aggregate_values()
        changed = tuple(sorted(set('%s.%s' % (k[0].__name__, k[2]) for k in now if before.get(k) != now[k])))
        if waited and e is None and changed:
            res.cov['waited'] += 1
            res.note(('overlap', tuple(sig(op) for op in first), sig(second), changed), first_session=first,
                     waiting_session=second, counters_changed=changed)
        else:
            res.trivial()
    res.cov.update(w.cov)


def free(cfg, res):
    """Several sessions without any order."""
    import denorm
    from django.core.exceptions import ObjectDoesNotExist
    from django.db import connection, transaction, DatabaseError, IntegrityError
    rng = seeded(cfg['seed'], 'free', cfg['case'], cfg.get('stream', cfg['backend']))
    main = world(cfg, rng, 6)
    counted = set(m.__name__ for m in main.models.values() if main.aggs[m])
    weights = dict(create=25, update=45, delete=14, load=10, txn=10)

    def deletes(op):
        """Rows with counters are not deleted here: saving an object of before makes them again, see above."""
        return op['op'] == 'delete' and op['m'] in counted or any(map(deletes, op.get('ops', ())))
    sessions = cfg.get('sessions', 4)
    for r in range(cfg['rounds']):
        main.wipe()
        main.populate(2)
        denorm.flush()
        done, failed = [], []
        barrier = threading.Barrier(sessions)

        def go(k):
            try:
                w = world(cfg, seeded(cfg['seed'], 'free', r, k, cfg.get('stream', cfg['backend'])), 8)
                barrier.wait()
                for j in range(cfg['n']):
                    for attempt in range(30):
                        try:
                            if w.rng.random() < 0.1:
                                op = {'op': 'flush'}
                                with bounded(30000, "flush()", connection):
                                    denorm.flush()
                            else:
                                op = w.gen(weights)
                                while deletes(op):
                                    op = w.gen(weights)
                                with transaction.atomic():
                                    w.apply(op)
                            done.append((k, sig(op)))
                            break
                        except (IntegrityError, ObjectDoesNotExist, LookupError, RuntimeError):
                            res.cov['refused_by_constraint'] += 1
                            break
                        except DatabaseError as e:
                            if not blocked(e) and 'could not serialize' not in str(e) and 'Save with update_fields' not in \
                                    str(e) and 'Record has changed' not in str(e):
                                raise
                            res.cov['gave_way'] += 1
            except BaseException as e:
                failed.append(e)
            finally:
                connection.close()
        threads = [threading.Thread(target=go, args=(k,), daemon=True) for k in range(sessions)]
        for t in threads:
            t.start()
        for t in threads:
            t.join()
        if failed:
            raise failed[0]
        res.cov['operations_of_free_sessions'] += len(done)
        check(main, "%d sessions with %d operations" % (sessions, len(done)), operations=done[-60:])
        values = sorted(((k[0].__name__, k[2], v) for k, v in main.aggregate_values().items()), key=repr)
        res.note(('free', tuple(values)), sessions=sessions, operations=len(done), counters=len(values))
    res.cov.update(main.cov)


def run(cfg, res):
    boot.setup()
    if cfg['mode'] == 'inject':
        injected(cfg, res)
    elif cfg['mode'] == 'overlap':
        overlap(cfg, res)
    else:
        free(cfg, res)
