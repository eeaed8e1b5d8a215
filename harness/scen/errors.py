"""Value functions that raise, while objects are saved, flushed and rebuilt: whoever asked gets the exception, nothing is
stored, and the next attempt goes as if nothing had been."""
import contextlib
import io

import boot
from common import Violation, bounded, flush, rows_total, seeded
from scen.history import names, sig

KINDS = dict(create=35, update=45, noop=6, rel=8)


class Fault(object):
    """Raises at the k-th call of a function."""

    def __init__(self, k, cls):
        self.k = k
        self.exc = cls("injected")
        self.fired = None

    def hit(self, fn, obj):
        self.k -= 1
        if self.k == 0:
            self.fired = (fn, obj)
            raise self.exc


def run(cfg, res):
    boot.setup()
    import denorm
    from django.core.exceptions import ObjectDoesNotExist, ValidationError
    from django.core.management import call_command
    from django.db import DatabaseError, IntegrityError, transaction
    from engine import World, diff
    from vcase import spec
    rng = seeded(cfg['seed'], 'errors', cfg['case'], cfg.get('stream', cfg['backend']))
    w = World(rng, max_rows=cfg.get('rows', 4))
    # forms do not fill intermediate models
    kinds = dict(KINDS, form=0 if cfg['case'] == 'links' else 10)
    fault = [None]
    classes = [ValueError, AttributeError, KeyError, IndexError, TypeError, ZeroDivisionError, NotImplementedError, RuntimeError,
               AssertionError, UnicodeError, OSError, ImportError, ObjectDoesNotExist, ValidationError, DatabaseError,
               IntegrityError, KeyboardInterrupt, SystemExit]

    def hook(fn, obj):
        if fault[0] is not None:
            fault[0].hit(fn, obj)
    spec.HOOKS.append(hook)

    def attempt(fn, cls, atomic, last):
        p = fault[0] = Fault(rng.randint(1, last), cls)
        try:
            with transaction.atomic() if atomic else contextlib.suppress():
                fn()
        except BaseException as e:
            if p.fired is None:
                raise
            if not isinstance(e, cls):
                raise Violation("error_replaced", "%s of %s came out as %r" % (cls.__name__, p.fired[0].__qualname__, e))
        else:
            if p.fired is not None:
                raise Violation("error_swallowed", "%s of %s(%r).%s reached nobody" % (
                    cls.__name__, type(p.fired[1]).__name__, p.fired[1].pk, p.fired[0].__name__))
        finally:
            fault[0] = None
        return p.fired

    def single(op):
        """Does the step save just one object?"""
        if op['op'] == 'create':
            return len(op['rows']) == 1 or op['how'] == 'bulk'
        if op['op'] == 'rel':
            return op['act'] == 'create'
        return True

    def linked(m):
        return any(hasattr(f, 'denorm') for f in m._meta.many_to_many)

    def recorded():
        marked = w.marked()
        for m, pk, f, stored, want in w.stale():
            if (m, pk) not in marked:
                raise Violation("error_lost", "%s(%r).%s is %r instead of %r and not recorded after an error" % (
                    m.__name__, pk, f, stored, want))

    def command():
        with contextlib.redirect_stdout(io.StringIO()):
            call_command(rng.choice(['denorm_flush', 'denorm_rebuild']))

    done = 0
    steps = 0
    while done < cfg['n'] and steps < 40 * cfg['n']:
        steps += 1
        if steps % 60 == 1:
            w.wipe()
            res.trace.clear()
            w.populate(1)
            flush(w)
        cls = rng.choice(classes)
        atomic = rng.random() < 0.25
        what = rng.choice(['save'] * 6 + ['flush', 'flush', 'rebuild', 'command'])
        if what == 'save':
            op = entry = w.gen(kinds)
            while op.get('how') in ('qs', 'raw'):
                op = entry = w.gen(kinds)

            def work():
                return w.apply(op)
        else:
            for _ in range(rng.randint(0, 3)):
                op = w.gen()
                res.trace.append(op)
                w.apply(op)
            op, entry = None, {'op': what}
            work = {'flush': denorm.flush, 'rebuild': denorm.rebuildall, 'command': command}[what]
        stale = w.stale()
        before = w.snapshot()
        res.trace.append(dict(entry, error=cls.__name__, atomic=atomic))
        with bounded(5000 + 1500 * rows_total(w), what):
            fired = attempt(work, cls, atomic, 3 if op else 8)
        if fired is None:
            res.cov['nothing_raised'] += 1
            continue
        fn, obj = fired
        m = type(obj)
        after = w.snapshot()
        if after != before and (atomic or what == 'save' and single(op) and not linked(m)):
            raise Violation("error_stored", "%s of %s left something behind" % (cls.__name__, fn.__qualname__),
                            diff=diff(before, after))
        recorded()
        done += 1
        res.cov['raised:' + what] += 1
        res.cov['raised_class:' + cls.__name__] += 1
        res.note((cfg['case'], what, sig(op) if op else None, fn.__qualname__, cls.__name__, atomic, bool(stale)),
                 during=what, step=entry, function=fn.__qualname__, error=cls.__name__)
        # and now without the error
        if what == 'save' and rng.random() < 0.6 and (atomic or single(op) and not linked(m)):
            if rng.random() < 0.5 and op['op'] in ('create', 'update') and op['how'] != 'bulk':
                obj.save()
                again = 'object'
            else:
                if not w.apply(op):
                    raise Violation("error_sticks", "a step that failed by an error is no longer possible", step=op)
                again = 'step'
            res.cov['again:' + again] += 1
            recorded()
        if what in ('save', 'flush') and rng.random() < 0.4:
            continue
        if what == 'rebuild':
            denorm.rebuildall()
        else:
            flush(w)
        if w.markers():
            raise Violation("flush_left", "work left by %s after an error" % what)
        for x, pk, f, stored, want in w.stale() + w.wrong_aggregates():
            raise Violation("error_lost", "%s(%r).%s is %r instead of %r after %s following an error" % (
                x.__name__, pk, f, stored, want, what))
        res.cov['recovered'] += 1
    res.cov.update(w.cov)
