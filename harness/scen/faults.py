"""Interrupt flush() at every point: an error of the database before or after a statement took effect, an exception of a
value function, the death of the process; with and without an enclosing transaction."""
import os

import boot
from common import Violation, blame, flush, seeded
from scen.history import names, sig


def faults(kind):
    """What may go wrong there."""
    from django.core.exceptions import ObjectDoesNotExist, ValidationError
    from django.db import DatabaseError, DataError, IntegrityError, InterfaceError, OperationalError
    if kind == 'function':
        return [ValueError, AttributeError, KeyError, TypeError, ObjectDoesNotExist, ValidationError, RuntimeError, IntegrityError,
                OperationalError, KeyboardInterrupt, SystemExit]
    return [DatabaseError, DataError, IntegrityError, InterfaceError, OperationalError, RuntimeError, KeyboardInterrupt]


class Plan(object):
    """Raises (or dies) at the k-th event of its kind."""

    def __init__(self, kind, k, die=None, fault=None):
        self.kind = kind
        self.k = k
        self.n = 0
        self.die = die
        self.fault = fault
        self.fired = None

    def hit(self, what):
        self.n += 1
        if self.n == self.k:
            self.fired = what
            if self.die:
                self.die()
            raise self.fault(what)

    def wrapper(self, execute, sql, params, many, context):
        if sql.split(None, 1)[0].upper() in ('BEGIN', 'SAVEPOINT', 'RELEASE', 'ROLLBACK'):
            # Django itself gets confused when these fail
            return execute(sql, params, many, context)
        if self.kind == 'before':
            self.hit(sql)
        r = execute(sql, params, many, context)
        if self.kind == 'after':
            self.hit(sql)
        return r


def run(cfg, res):
    boot.setup()
    import denorm
    from django.db import connection, transaction
    from engine import World, diff
    from vcase import spec
    rng = seeded(cfg['seed'], 'faults', cfg['case'], cfg.get('stream', cfg['backend']))
    w = World(rng, max_rows=cfg.get('rows', 4))
    plan = [None]

    def hook(fn, obj):
        if plan[0] is not None and plan[0].kind == 'function':
            plan[0].hit(fn.__name__)
    spec.HOOKS.append(hook)

    def dirty():
        """A few changes that leave something out of date."""
        for _ in range(40):
            for _ in range(rng.randint(1, 4)):
                op = w.gen()
                res.trace.append(op)
                w.apply(op)
            if w.stale():
                return True
        return False

    def attempt(kind, k, mode):
        """-> what was hit, or None if the flush ended before the k-th event."""
        p = plan[0] = Plan(kind, k, fault=rng.choice(faults(kind)))
        try:
            with connection.execute_wrapper(p.wrapper):
                if mode == 'atomic':
                    with transaction.atomic():
                        denorm.flush()
                else:
                    denorm.flush()
        except (Exception, KeyboardInterrupt, SystemExit):
            if p.fired is None:
                raise
            res.cov['raised:' + p.fault.__name__] += 1
        finally:
            plan[0] = None
        return p.fired

    def killed(kind, k):
        """The same in a child process that dies on the spot."""
        connection.close()
        pid = os.fork()
        if pid == 0:
            try:
                p = plan[0] = Plan(kind, k, die=lambda: os._exit(17))
                with connection.execute_wrapper(p.wrapper):
                    denorm.flush()
                os._exit(0)
            except BaseException:
                import traceback
                traceback.print_exc()
                os._exit(3)
        code = os.WEXITSTATUS(os.waitpid(pid, 0)[1])
        if code == 3:
            raise Violation("exception", "flush() failed in a child process")
        return 'killed at event %d' % k if code == 17 else None

    modes = cfg.get('modes', ['auto', 'auto', 'atomic', 'kill'])
    rounds = 0
    while rounds < cfg['n']:
        if rounds % 12 == 0:
            w.wipe()
            res.trace.clear()
            w.populate(1)
            flush(w)
        if not dirty():
            res.cov['nothing_out_of_date'] += 1
            continue
        stale = w.stale()
        mode = rng.choice(modes)
        kind = rng.choice(['before', 'after', 'function', 'function'])
        # walk through the events of one flush, from different starting points
        k = rng.randint(1, 6)
        interruptions = 0
        while True:
            rounds += 1
            before = w.snapshot() if mode == 'atomic' else None
            res.trace.append({'op': 'interrupted flush', 'kind': kind, 'k': k, 'mode': mode})
            fired = killed(kind, k) if mode == 'kill' else attempt(kind, k, mode)
            if fired is None:
                break
            interruptions += 1
            res.cov['interrupted:%s:%s' % (mode, kind)] += 1
            if mode == 'atomic':
                after = w.snapshot()
                if after != before:
                    raise Violation("rollback_trace", "an interrupted flush() inside a transaction left something",
                                    diff=diff(before, after), at=fired)
            marked = w.marked()
            now = w.stale()
            for m, pk, f, stored, want in now:
                if (m, pk) not in marked:
                    raise Violation("interrupted_lost", "%s(%r).%s is %r instead of %r and no longer recorded after "
                                    "flush() was interrupted" % (m.__name__, pk, f, stored, want), at=fired, fault=kind, mode=mode)
            res.note((cfg['case'], mode, kind, str(fired).split('"')[0][:40] if kind != 'function' else fired,
                      names(now)), interrupted_at=str(fired)[:200], still_out_of_date=names(now), mode=mode, kind=kind)
            if interruptions > 6 or rng.random() < 0.15:
                # some work arrives in between
                break
            k += rng.randint(1, 4)
        flush(w)
        if w.markers():
            raise Violation("flush_left", "work left after the next flush()")
        for m, pk, f, stored, want in w.stale():
            raise Violation("interrupted_lost", "%s(%r).%s is %r instead of %r after the flush() following an "
                            "interruption" % (m.__name__, pk, f, stored, want), fault=kind, mode=mode)
        res.cov['recovered'] += 1
    res.cov.update(w.cov)
