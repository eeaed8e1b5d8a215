"""Triggers of another package."""
import json
import os

_b = json.loads(os.environ["VCFG"])["backend"]
if _b == "sqlite":
    from denorm.db.sqlite3.triggers import *      # noqa
elif _b == "mysql":
    from denorm.db.mysql.triggers import *        # noqa
else:
    from denorm.db.postgresql.triggers import *   # noqa
