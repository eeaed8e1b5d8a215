"""One job: a scenario on a case and a backend, in its own process with its own database."""
import faulthandler
import importlib
import json
import os
import sys
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)

from common import Result, Violation, blame, jsonable  # noqa


def main():
    cfg = json.loads(os.environ["VCFG"])
    # a hang is inconclusive: the driver sees no result file
    faulthandler.dump_traceback_later(cfg.get("limit", 600), exit=True)
    res = Result(cfg)
    try:
        importlib.import_module("scen." + cfg["scenario"]).run(cfg, res)
        res.status = "violation" if res.violations else "ok"
    except Violation as v:
        res.violation(v)
        res.status = "violation"
    except BaseException as e:
        kind = blame(e)
        text = traceback.format_exc()[-6000:]
        if kind:
            res.violation(Violation("exception", "%s: %s" % (type(e).__name__, str(e)[:500]), where=kind,
                                    traceback=text))
            res.status = "violation"
        else:
            res.status = "error"
            res.error = text
    with open(cfg["out"] + ".tmp", "w") as f:
        json.dump(jsonable(res.dump()), f)
    os.rename(cfg["out"] + ".tmp", cfg["out"])
    sys.stdout.flush()
    os._exit(0)


main()
