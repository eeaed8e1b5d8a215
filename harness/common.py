"""What all scenarios share."""
import collections
import contextlib
import hashlib
import os
import random
import traceback


class Violation(Exception):
    def __init__(self, kind, msg, **detail):
        Exception.__init__(self, "%s: %s" % (kind, msg))
        self.kind = kind
        self.msg = msg
        self.detail = detail


class Inconclusive(Exception):
    pass


def jsonable(x):
    if isinstance(x, dict):
        return dict((str(k), jsonable(v)) for k, v in x.items())
    if isinstance(x, (list, tuple)):
        return [jsonable(v) for v in x]
    if isinstance(x, (set, frozenset)):
        return sorted([jsonable(v) for v in x], key=repr)
    if isinstance(x, (int, float, bool, type(None), str)):
        return x
    if isinstance(x, type):
        return x.__name__
    return repr(x)


def seeded(*parts):
    h = hashlib.sha256(repr(parts).encode()).digest()
    return random.Random(int.from_bytes(h[:8], "big"))


class Result(object):
    def __init__(self, cfg):
        self.cfg = cfg
        self.status = "error"
        self.error = None
        self.cov = collections.Counter()
        self.evaluations = 0
        self.distinct = set()
        self.samples = []
        self.violations = []
        self.known = []
        self.trace = collections.deque(maxlen=400)

    def note(self, signature, **sample):
        """One evaluation of the oracle in a situation where it could have failed."""
        self.evaluations += 1
        key = hashlib.sha256(repr(signature).encode()).hexdigest()[:16]
        if key not in self.distinct:
            self.distinct.add(key)
            if len(self.samples) < 4:
                self.samples.append(dict(sample, situation=signature))

    def trivial(self):
        self.cov["trivial_evaluations"] += 1

    def violation(self, v):
        self.violations.append({"kind": v.kind, "msg": v.msg, "detail": v.detail, "trace": list(self.trace)})

    def known_finding(self, key, msg):
        if not any(k["key"] == key for k in self.known):
            self.known.append({"key": key, "msg": msg})

    def dump(self):
        return {"status": self.status, "error": self.error, "cov": dict(self.cov), "evaluations": self.evaluations,
                "distinct": sorted(self.distinct), "samples": self.samples, "violations": self.violations,
                "known": self.known,
                "job": dict((k, v) for k, v in self.cfg.items() if k not in ("host", "dbname", "out", "dir"))}


LOST = ("server closed", "could not connect", "can't connect", "gone away", "lost connection", "too many", "refused",
        "statement timeout", "max_statement_time", "connection already closed", "terminating connection", "no space",
        "disk i/o", "disk is full", "out of memory")


def blame(e):
    """Is an exception the code's doing (returns where) or a failure of the check (None)?

    Workloads only do what is legal and works on the released code, so an error of the database in the middle of
    one, or anything raised below a frame of denorm, is the code's doing."""
    from django.db import Error as DatabaseError
    if isinstance(e, (KeyboardInterrupt, MemoryError, Inconclusive)):
        return None
    text = str(e).lower()
    chain, seen = [], set()
    x = e
    while x is not None and id(x) not in seen:
        seen.add(id(x))
        chain.append(x)
        x = x.__cause__ or x.__context__
    if isinstance(e, DatabaseError) and any(p in text for p in LOST):
        return None
    for x in chain:
        for frame in traceback.extract_tb(x.__traceback__):
            if frame.filename.startswith(os.environ.get("VERIF_REPO", "/repo") + "/denorm/"):
                return "%s:%s" % (frame.filename, frame.name)
    if isinstance(e, DatabaseError):
        return "database"
    return None


class TooMany(Violation):
    pass


@contextlib.contextmanager
def bounded(limit, what, conn=None):
    """Decide non-termination on the number of statements, not on time."""
    from django.db import connection
    conn = conn or connection
    n = [0]

    def wrapper(execute, sql, params, many, context):
        n[0] += 1
        if n[0] > limit:
            raise TooMany("nontermination", "%s issued more than %d statements" % (what, limit), last=sql[:300])
        return execute(sql, params, many, context)
    with conn.execute_wrapper(wrapper):
        yield n


def rows_total(w):
    return sum(m._base_manager.count() for m in w.models.values())


def flush(w):
    """A flush, by function or command, under the statement budget; returns the number of statements."""
    import io
    import denorm
    from django.core.management import call_command
    limit = 3000 + 600 * rows_total(w) + 100 * len(w.markers())
    how = random.Random(w.cov["flush_calls"]).choice(["function"] * 6 + ["verbose", "command"])
    with bounded(limit, "flush()") as n, contextlib.redirect_stdout(io.StringIO()):
        if how == "command":
            call_command("denorm_flush")
        elif how == "verbose":
            denorm.flush(verbose=True)
        else:
            denorm.flush()
    w.cov["flush_by:" + how] += 1
    w.cov["flush_calls"] += 1
    w.cov["flush_statements"] += n[0]
    return n[0]
