"""Requests through the whole handler, each changing data and ending in one of the ways requests end."""
import logging

import boot
from common import Violation, bounded, flush, rows_total, seeded
from scen.history import names, sig


def run(cfg, res):
    boot.setup()
    import denorm
    from django.db import DatabaseError, connection, transaction
    from django.test.client import Client
    from engine import World, diff
    from vcase import spec, urls
    logging.disable(logging.CRITICAL)
    rng = seeded(cfg['seed'], 'requests', cfg['case'], cfg.get('stream', cfg['backend']))
    w = World(rng, max_rows=5)
    active = cfg['active']                # is anything meant to flush?
    atomic = bool(cfg.get('atomic'))
    connection.settings_dict['ATOMIC_REQUESTS'] = atomic
    client = Client()
    client.handler.raise_request_exception = False
    from django.core.signals import got_request_exception
    got_request_exception.disconnect(dispatch_uid='request-exception')
    status = {'ok': 200, 'json': 200, 'stream': 200, '404': 404, '403': 403, '400': 400, '500': 500, 'redirect': 302,
              '204': 204, 'error': 503}
    fail = [False]

    def hook(fn, obj):
        if fail[0]:
            raise DatabaseError("injected")
    spec.HOOKS.append(hook)

    def post(outcome, ops, method):
        done = []

        def work():
            for op in ops:
                w.apply(op)
                done.append(op)
            done.append(w.stale())
            fail[0] = broken
        urls.JOB.update(work=work, outcome=outcome)
        with bounded(20000 + 1200 * rows_total(w), "a request"):
            try:
                r = getattr(client, method)('/do/')
                body = b''.join(r.streaming_content) if r.streaming else r.content
                r.close()
            except urls.Failure:
                # the client of the tests raises what it was told about
                r, body = None, None
            except (AttributeError, TypeError) as e:
                # what a view does ends in a response, so this is about the response itself
                raise Violation("response_changed", "no usable response: %s: %s" % (type(e).__name__, e), outcome=outcome)
            finally:
                fail[0] = False
        return r, body, done

    for i in range(cfg['n']):
        if i % 40 == 0:
            w.wipe()
            res.trace.clear()
            w.populate(1)
            flush(w)
        outcome = rng.choice(sorted(status))
        method = rng.choice(['get', 'post', 'put', 'delete'])
        ops = [w.gen(dict(create=25, update=45, delete=8, m2m=12, txn=8, noop=2)) for _ in range(rng.randint(0, 3))]
        broken = cfg.get('middleware') and rng.random() < 0.1
        res.trace.append({'request': method, 'outcome': outcome, 'ops': ops, 'flush fails': broken})
        before = w.snapshot(base_only=True)
        r, body, done = post(outcome, ops, method)
        rolled_back = atomic and outcome in ('404', '403', '400', '500')
        stale_inside = done[-1] if done and isinstance(done[-1], list) else []
        if r is not None:
            if r.status_code != status[outcome]:
                raise Violation("response_changed", "status %d instead of %d" % (r.status_code, status[outcome]))
            if outcome not in ('404', '403', '400', '500'):
                if r['X-Seen'] != outcome or r.cookies['c'].value != outcome:
                    raise Violation("response_changed", "headers of the response got lost")
                want = {'ok': b'fine ' + method.upper().encode(), 'stream': b'ab' + method.upper().encode(), 'redirect': b'',
                        'json': b'{"method": "%s"}' % method.upper().encode(), '204': b'', 'error': b'sorry'}[outcome]
                if body != want:
                    raise Violation("response_changed", "body %r instead of %r" % (body, want))
        if rolled_back:
            now = w.snapshot(base_only=True)
            if now != before:
                raise Violation("request_rollback", "a failed request left changes", diff=diff(before, now))
        if broken:
            # an error of the database must not cost the response, nor the work
            marked = w.marked()
            for m, pk, f, stored, want in w.stale():
                if (m, pk) not in marked:
                    raise Violation("request_lost", "%s(%r).%s is out of date and unrecorded after a failed flush" % (
                        m.__name__, pk, f))
            res.cov['failed_flushes'] += 1
            flush(w)
            continue
        stale = w.stale()
        if active:
            if w.markers():
                raise Violation("request_left", "work is still recorded after the response", outcome=outcome)
            for m, pk, f, stored, want in stale:
                raise Violation("request_stale", "%s(%r).%s is %r instead of %r after the response" % (
                    m.__name__, pk, f, stored, want), outcome=outcome)
            if stale_inside and not rolled_back:
                res.note((outcome, method, names(stale_inside), tuple(sig(o) for o in ops)), outcome=outcome, method=method,
                         repaired=names(stale_inside))
            else:
                res.trivial()
        else:
            # neither middleware nor setting: nothing flushes behind one's back
            if stale_inside and not rolled_back:
                if not stale:
                    raise Violation("request_flushed", "a request flushed without being told to")
                res.note(('off', outcome, names(stale)), outcome=outcome, still_out_of_date=names(stale))
            flush(w)
        res.cov['outcome:' + outcome] += 1
    res.cov.update(w.cov)
