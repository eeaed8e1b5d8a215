"""A second database session, driven statement by statement from the first."""
import queue
import threading


class Session(threading.Thread):
    def __init__(self, wait_ms=100):
        threading.Thread.__init__(self, daemon=True)
        self.todo = queue.Queue()
        self.done = queue.Queue()
        self.wait_ms = wait_ms
        self.start()
        self.call(self._init)

    def _init(self):
        from django.db import connection
        with connection.cursor() as c:
            if connection.vendor == 'postgresql':
                c.execute("SET lock_timeout = %s", [self.wait_ms])
            elif connection.vendor == 'mysql':
                c.execute("SET SESSION innodb_lock_wait_timeout = 0")
            else:
                c.execute("PRAGMA busy_timeout = %d" % self.wait_ms)

    def run(self):
        while True:
            fn = self.todo.get()
            if fn is None:
                from django.db import connection
                connection.close()
                self.done.put((True, None))
                return
            try:
                self.done.put((True, fn()))
            except BaseException as e:
                self.done.put((False, e))

    def call(self, fn):
        """Run fn in the other session and wait for it."""
        self.todo.put(fn)
        ok, r = self.done.get()
        if not ok:
            raise r
        return r

    def close(self):
        self.todo.put(None)
        self.done.get()


def blocked(e):
    """Did the other session only have to wait for us?"""
    text = str(e).lower()
    return any(x in text for x in ('lock timeout', 'lock wait timeout', 'database is locked', 'deadlock',
                                   'database table is locked', 'auto-increment value'))
