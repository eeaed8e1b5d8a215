"""Common start of every worker process."""
import json
import os
import sys
import warnings

warnings.simplefilter("ignore")
CFG = json.loads(os.environ["VCFG"])


def setup(create=True, install=True):
    os.environ["DJANGO_SETTINGS_MODULE"] = "vsettings"
    import django
    django.setup()
    if CFG["backend"] == "sqlite":
        from django.db.backends.signals import connection_created

        def fast(sender, connection, **kwargs):
            with connection.cursor() as c:
                c.execute("PRAGMA synchronous=OFF")
        connection_created.connect(fast, weak=False)
    import denorm
    if not os.path.abspath(denorm.__file__).startswith(os.environ.get("VERIF_REPO", "/repo") + "/"):
        raise RuntimeError("denorm comes from %s" % denorm.__file__)
    from django.core.management import call_command
    if create:
        call_command("migrate", run_syncdb=True, verbosity=0, interactive=False)
    if install:
        call_command("denorm_init")
    return CFG
