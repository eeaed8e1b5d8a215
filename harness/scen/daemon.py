"""The real daemon in processes of its own, cycle by cycle, with commits by others, a second start, kills and restarts."""
import ctypes
import os
import signal
import socket
import subprocess
import sys
import time

import boot
from common import Inconclusive, Violation, flush, seeded
from scen.history import names, sig
from session import Session, blocked

WAIT = 90


class Daemon(object):
    def __init__(self, cfg, foreground, pidfile, interval=3, once=False):
        self.dir = cfg['dir']
        self.path = os.path.join(cfg['dir'], 's%d' % time.monotonic_ns())
        self.srv = socket.socket(socket.AF_UNIX)
        self.srv.bind(self.path)
        self.srv.listen(5)
        self.srv.settimeout(0.2)
        self.conn = None
        self.pid = None
        self.interval = interval
        self.foreground = foreground
        self.pidfile = pidfile
        self.log = open(os.path.join(cfg['dir'], 'daemon.log'), 'w+')
        args = ['denorm_daemon', '-i', str(interval), '-f', pidfile]
        if foreground:
            args.append('-n')
        if once:
            args.append('-o')
        env = dict(os.environ, VSOCK=self.path)
        self.proc = subprocess.Popen([sys.executable, os.path.join(os.path.dirname(boot.__file__), 'daemon_child.py')] + args,
                                     env=env, cwd=cfg['dir'], stdin=subprocess.DEVNULL, stdout=self.log, stderr=self.log)

    def output(self):
        self.log.seek(0)
        return self.log.read()[-3000:]

    def gone(self):
        if self.pid is None:
            if self.proc.poll() is None:
                return False
            if self.foreground or self.proc.returncode != 0:
                return True
            # the process that went to the background
            reap()
            try:
                pid = int(open(self.pidfile).read())
                os.kill(pid, 0)
                return False
            except (OSError, ValueError):
                return True
        if self.foreground:
            return self.proc.poll() is not None
        reap()
        try:
            os.kill(self.pid, 0)
            return False
        except OSError:
            return True

    def pause(self):
        """Wait until it has done a cycle; False if it ended instead."""
        end = time.monotonic() + WAIT
        over = None
        while time.monotonic() < end:
            try:
                self.conn, _ = self.srv.accept()
                pid, seconds = self.conn.recv(100).decode().split()
                self.pid = int(pid)
                if float(seconds) != self.interval:
                    raise Violation("daemon_interval", "the daemon pauses %s seconds instead of %s" % (seconds, self.interval))
                return True
            except socket.timeout:
                if self.gone():
                    # it may have connected just before
                    over = (over or 0) + 1
                    if over > 3:
                        return False
        raise Inconclusive("the daemon did not finish a cycle in time: " + self.output())

    def go(self):
        self.conn.sendall(b"go")
        self.conn.close()
        self.conn = None

    def cycles(self, n):
        for _ in range(n):
            self.go()
            if not self.pause():
                raise Violation("daemon_died", "the daemon ended by itself", output=self.output())

    def kill(self, sig):
        os.kill(self.pid, sig)
        end = time.monotonic() + WAIT
        while not self.gone():
            if time.monotonic() > end:
                raise Inconclusive("the daemon does not end")
            time.sleep(0.02)
        self.close()

    def close(self):
        if self.conn is not None:
            self.conn.close()
        self.srv.close()
        self.log.close()


def reap():
    try:
        while True:
            pid, _ = os.waitpid(-1, os.WNOHANG)
            if not pid:
                break
    except ChildProcessError:
        pass


def quiet():
    """Wait until the database has noticed that the other process is gone."""
    from django.db import connection
    sql = {'postgresql': "SELECT COUNT(*) FROM pg_stat_activity WHERE datname = current_database() AND pid <> pg_backend_pid() "
                         "AND application_name <> 'other' AND backend_type = 'client backend'",
           'mysql': "SELECT COUNT(*) FROM information_schema.processlist WHERE db = DATABASE() AND id <> CONNECTION_ID()"}
    q = sql.get(connection.vendor)
    if not q:
        return
    end = time.monotonic() + WAIT
    while time.monotonic() < end:
        with connection.cursor() as c:
            c.execute(q)
            if c.fetchone()[0] == 0:
                return
        time.sleep(0.02)
    raise Inconclusive("the connection of the killed daemon is still there")


def run(cfg, res):
    boot.setup()
    from django.db import connection, transaction, DatabaseError
    from engine import World
    ctypes.CDLL(None).prctl(36, 1, 0, 0, 0)  # orphans of the double fork are ours to reap
    rng = seeded(cfg['seed'], 'daemon', cfg['case'], cfg.get('stream', cfg['backend']))
    w = World(rng, max_rows=5)
    pidfile = os.path.join(cfg['dir'], 'pid')
    weights = dict(create=25, update=40, delete=8, m2m=12, txn=8)

    def change(n):
        out = []
        for _ in range(n):
            op = w.gen(weights)
            res.trace.append(op)
            w.apply(op)
            out.append(op)
        return out

    def consistent(what, **detail):
        if w.markers():
            raise Violation("daemon_left", "work is still recorded " + what, **detail)
        for m, pk, f, stored, want in w.stale():
            raise Violation("daemon_stale", "%s(%r).%s is %r instead of %r %s" % (m.__name__, pk, f, stored, want, what), **detail)

    def nothing_lost(what):
        marked = w.marked()
        stale = w.stale()
        for m, pk, f, stored, want in stale:
            if (m, pk) not in marked:
                raise Violation("daemon_lost", "%s(%r).%s is %r instead of %r and nothing records it %s" % (
                    m.__name__, pk, f, stored, want, what))
        return stale

    def attempt(op):
        """A commit by somebody who does not wait long for the daemon's locks."""
        other = Session()
        try:
            def work():
                with transaction.atomic():
                    w.apply(op)
            other.call(work)
            return True
        except DatabaseError as e:
            if not blocked(e):
                raise
            return False
        finally:
            other.close()

    for i in range(cfg['rounds']):
        w.wipe()
        res.trace.clear()
        w.populate(1)
        # once
        stale = w.stale()
        if rng.random() < 0.5:
            d = Daemon(cfg, True, os.path.join(cfg['dir'], 'pid_once'), once=True)
            if d.pause():
                d.go()
                if d.pause():
                    raise Violation("daemon_once", "running once went on to a second cycle")
            if d.proc.wait() != 0:
                raise Violation("daemon_died", "running once failed", output=d.output())
            d.close()
            consistent("after running once")
            res.cov['run_once'] += 1
            if stale:
                res.note(('once', names(stale)), repaired=names(stale))
        foreground = rng.random() < 0.35
        res.trace.append('start, foreground %s' % foreground)
        if not foreground and not os.path.exists(pidfile) and rng.random() < 0.5:
            # the pid of a process that is gone
            p = subprocess.Popen(['true'])
            p.wait()
            with open(pidfile, 'w') as f:
                f.write(str(p.pid))
        had = os.path.exists(pidfile)
        d = Daemon(cfg, foreground, pidfile, interval=rng.randint(1, 9))
        if not d.pause():
            raise Violation("daemon_refused", "the daemon did not start", stale_pid_file=had, output=d.output())
        if had:
            res.cov['started_despite_stale_pid_file'] += 1
        d.cycles(2)
        consistent("after the first cycles of the daemon")
        if not foreground:
            if d.proc.wait() != 0:
                raise Violation("daemon_died", "starting the daemon failed", output=d.output())
            try:
                recorded = int(open(pidfile).read())
            except (OSError, ValueError):
                recorded = None
            if recorded != d.pid:
                raise Violation("daemon_pid", "the pid file says %r, the daemon is %r" % (recorded, d.pid))
        for j in range(rng.randint(2, 4)):
            ops = change(rng.randint(1, 3))
            stale = w.stale()
            d.go()
            if not d.pause():
                raise Violation("daemon_died", "the daemon ended by itself", output=d.output())
            late = None
            if rng.random() < 0.5:
                op = w.gen(weights)
                late = attempt(op)
                res.cov['commit_during_pause' if late else 'commit_had_to_wait'] += 1
                res.trace.append(('during the pause', op, late))
            d.cycles(3)
            consistent("three cycles after a commit", ops=ops)
            res.cov['cycles'] += 4
            if stale:
                res.note(('cycle', tuple(sig(o) for o in ops), names(stale), late), ops=ops, repaired=names(stale))
            else:
                res.trivial()
        if not foreground and rng.random() < 0.7:
            # a second one
            d2 = Daemon(cfg, rng.random() < 0.5, pidfile)
            end = time.monotonic() + WAIT
            while d2.proc.poll() is None and time.monotonic() < end:
                try:
                    c, _ = d2.srv.accept()
                    raise Violation("daemon_twice", "a second daemon runs although one is alive")
                except socket.timeout:
                    pass
            try:
                c, _ = d2.srv.accept()
                raise Violation("daemon_twice", "a second daemon runs although one is alive")
            except socket.timeout:
                pass
            if d2.proc.poll() is None:
                raise Inconclusive("the second daemon hangs")
            if open(pidfile).read() != str(d.pid):
                raise Violation("daemon_pid", "a second start changed the pid file")
            d2.close()
            res.note(('second', d2.foreground), refused=True)
            res.cov['second_start'] += 1
            d.cycles(1)
        how = rng.choice([signal.SIGKILL, signal.SIGKILL, signal.SIGTERM, signal.SIGINT])
        pending = rng.random() < 0.7
        if pending:
            change(rng.randint(1, 3))
            d.go()
            if not d.pause():
                raise Violation("daemon_died", "the daemon ended by itself", output=d.output())
        stale = w.stale()
        d.kill(how)
        quiet()
        res.trace.append('ended by %s' % how)
        left = nothing_lost("after the daemon was ended by signal %d" % how)
        if how == signal.SIGINT:
            consistent("after the daemon was interrupted between two cycles")
        res.cov['ended:%d' % how] += 1
        if stale:
            res.note(('end', int(how), names(stale), names(left)), signal=int(how), out_of_date=names(stale), still=names(left))
        if rng.random() < 0.5:
            # and somebody else can take over
            flush(w)
            consistent("after a flush following the end of the daemon")
        if foreground or rng.random() < 0.3:
            if os.path.exists(pidfile):
                os.unlink(pidfile)
    res.cov.update(w.cov)
