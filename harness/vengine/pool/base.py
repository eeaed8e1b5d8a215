"""An engine of another package, for the database of the job."""
import json
import os

_b = json.loads(os.environ["VCFG"])["backend"]
if _b == "sqlite":
    from django.db.backends.sqlite3.base import *    # noqa
elif _b == "mysql":
    from django.db.backends.mysql.base import *      # noqa
else:
    from django.db.backends.postgresql.base import *  # noqa
