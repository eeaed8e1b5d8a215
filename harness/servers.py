"""Private, throw-away database servers in a scratch directory."""
import atexit
import os
import shutil
import signal
import subprocess
import tempfile
import time

PG = "/usr/lib/postgresql/16/bin"
PATH = "/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin"


class ServerError(Exception):
    """The sandbox could not start a database: an error of the check, not a verdict."""


class Servers(object):
    def __init__(self):
        self.dir = tempfile.mkdtemp(prefix="vd.", dir="/tmp")
        os.chmod(self.dir, 0o755)
        self.pg = None
        self.my = None
        self.myproc = None
        self.env = dict(os.environ, PATH=PATH, LC_ALL="C.UTF-8")
        for k in ("PGHOST", "PGPORT", "PGUSER", "DJANGO_SETTINGS_MODULE"):
            self.env.pop(k, None)
        atexit.register(self.stop)
        for s in (signal.SIGTERM, signal.SIGINT, signal.SIGHUP):
            signal.signal(s, lambda *a: os._exit(self._die()))

    def _die(self):
        self.stop()
        return 130

    def start(self, backends):
        for b in backends:
            if b in ("postgres", "postgis"):
                self.start_pg()
            elif b == "mysql":
                self.start_mysql()

    def host(self, backend):
        if backend in ("postgres", "postgis"):
            return self.pg
        if backend == "mysql":
            return self.my + "/sock"
        return ""

    def start_pg(self):
        if self.pg:
            return
        d = os.path.join(self.dir, "pg")
        os.mkdir(d)
        shutil.chown(d, "postgres", "postgres")
        pre = ["setpriv", "--reuid=postgres", "--regid=postgres", "--clear-groups"]
        env = dict(self.env, HOME=d)
        log = open(os.path.join(self.dir, "initdb.log"), "wb")
        r = subprocess.call(pre + [PG + "/initdb", "-D", "data", "-A", "trust", "-U", "postgres", "-E", "UTF8",
                                   "--locale=C.UTF-8", "-N"], cwd=d, env=env, stdout=log, stderr=log)
        if r:
            raise ServerError("initdb: " + open(log.name).read()[-2000:])
        opts = ("-c listen_addresses= -c unix_socket_directories=%s -c fsync=off -c full_page_writes=off "
                "-c synchronous_commit=off -c max_connections=200 -c shared_buffers=128MB -c autovacuum=off "
                "-c statement_timeout=60s -c deadlock_timeout=200ms -c jit=off" % d)
        r = subprocess.call(pre + [PG + "/pg_ctl", "-D", "data", "-l", d + "/log", "-w", "-t", "120", "-o", opts, "start"],
                            cwd=d, env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        if r:
            raise ServerError("pg_ctl: " + open(d + "/log").read()[-2000:])
        self.pg = d

    def start_mysql(self):
        if self.my:
            return
        for attempt in range(3):
            try:
                return self.try_mysql(os.path.join(self.dir, "my%d" % attempt))
            except ServerError:
                if attempt == 2:
                    raise
                time.sleep(2)

    def try_mysql(self, d):
        os.mkdir(d)
        shutil.chown(d, "mysql", "mysql")
        log = open(d + ".log", "wb")
        r = subprocess.call(["mariadb-install-db", "--no-defaults", "--user=mysql", "--datadir=" + d + "/data",
                             "--auth-root-authentication-method=normal", "--skip-test-db", "--innodb-use-native-aio=0"],
                            env=dict(self.env, TMPDIR=d), stdout=log, stderr=log)
        if r:
            raise ServerError("mariadb-install-db: " + open(log.name).read()[-2000:])
        self.myproc = subprocess.Popen(
            ["mariadbd", "--no-defaults", "--user=mysql", "--datadir=" + d + "/data", "--socket=" + d + "/sock",
             "--pid-file=" + d + "/pid", "--skip-networking", "--character-set-server=utf8mb4",
             "--innodb-flush-log-at-trx-commit=0", "--innodb-flush-method=nosync", "--innodb-doublewrite=0",
             "--max-statement-time=60", "--innodb-lock-wait-timeout=10", "--lock-wait-timeout=30",
             "--max-connections=200", "--thread-stack=1M", "--innodb-use-native-aio=0",
             "--tmpdir=" + d],      # not shared with other servers
            env=self.env, stdout=log, stderr=log)
        for _ in range(600):
            if subprocess.call(["mariadb-admin", "--no-defaults", "-uroot", "-S", d + "/sock", "ping"], env=self.env,
                               stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL) == 0:
                break
            if self.myproc.poll() is not None:
                raise ServerError("mariadbd: " + open(log.name).read()[-2000:])
            time.sleep(0.2)
        else:
            raise ServerError("mariadbd did not start: " + open(log.name).read()[-2000:])
        self.my = d

    def createdb(self, backend, name):
        if backend in ("postgres", "postgis"):
            env = dict(self.env, HOME=self.dir)
            r = subprocess.run([PG + "/createdb", "-h", self.pg, "-U", "postgres", name], env=env, stderr=subprocess.PIPE)
            if r.returncode:
                raise ServerError("createdb: %r" % r.stderr)
            if backend == "postgis":
                r = subprocess.run([PG + "/psql", "-q", "-h", self.pg, "-U", "postgres", "-d", name, "-c",
                                    "CREATE EXTENSION postgis; CREATE EXTENSION hstore; CREATE EXTENSION citext"], env=env, stderr=subprocess.PIPE)
                if r.returncode:
                    raise ServerError("postgis: %r" % r.stderr)
            return name
        if backend == "mysql":
            r = subprocess.run(["mariadb", "--no-defaults", "-uroot", "-S", self.my + "/sock", "-e",
                                "CREATE DATABASE `%s`" % name], env=self.env, stderr=subprocess.PIPE)
            if r.returncode:
                raise ServerError("create database: %r" % r.stderr)
            return name
        return os.path.join(self.dir, name + ".sqlite")

    def stop(self):
        if not self.dir:
            return
        if self.pg and os.path.exists(self.pg + "/data/postmaster.pid"):
            subprocess.call(["setpriv", "--reuid=postgres", "--regid=postgres", "--clear-groups", PG + "/pg_ctl", "-D",
                             self.pg + "/data", "-m", "immediate", "-w", "stop"], cwd="/", env=self.env,
                            stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        if self.myproc is not None:
            self.myproc.kill()
            self.myproc.wait()
        d, self.dir = self.dir, None
        if d.startswith("/tmp/vd."):
            shutil.rmtree(d, ignore_errors=True)
