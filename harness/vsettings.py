"""Django settings of one worker process, from the environment."""
import json
import os

_cfg = json.loads(os.environ["VCFG"])
_b = _cfg["backend"]

_ENGINES = {
    "sqlite": "django.db.backends.sqlite3",
    "postgres": "django.db.backends.postgresql_psycopg2",
    "postgis": "django.contrib.gis.db.backends.postgis",
    "mysql": "django.db.backends.mysql",
}
_USER = {"sqlite": "", "postgres": "postgres", "postgis": "postgres", "mysql": "root"}


def _db(name):
    d = {
        "ENGINE": _cfg.get("engine") or _ENGINES[_b],
        "NAME": name,
        "HOST": _cfg.get("host", ""),
        "USER": _USER[_b],
        "PASSWORD": "",
        "ATOMIC_REQUESTS": False,
    }
    if _cfg.get("denorm_backend"):
        d["DENORM_BACKEND"] = _cfg["denorm_backend"]
    if _b == "mysql":
        d["OPTIONS"] = {"init_command": "SET sql_mode='STRICT_TRANS_TABLES'", "charset": "utf8mb4"}
    if _b == "sqlite":
        d["OPTIONS"] = {"timeout": _cfg.get("sqlite_timeout", 20)}
    return d


DATABASES = {"default": _db(_cfg["dbname"])}
for _alias, _name in _cfg.get("databases", {}).items():
    DATABASES[_alias] = _db(_name)

SECRET_KEY = "x"
DEBUG = False
USE_TZ = False
TIME_ZONE = "UTC"
USE_I18N = False
ALLOWED_HOSTS = ["*"]
INSTALLED_APPS = ["django.contrib.contenttypes", "denorm", "vcase"]
ROOT_URLCONF = "vcase.urls"
MIDDLEWARE = _cfg.get("middleware", [])
CACHES = {"default": {"BACKEND": "django.core.cache.backends.locmem.LocMemCache"}}
LOGGING_CONFIG = None
SILENCED_SYSTEM_CHECKS = ["mysql.W002", "fields.W342"]
MIGRATION_MODULES = _cfg.get("migration_modules", {"contenttypes": None, "denorm": None, "vcase": None})
for _k, _v in _cfg.get("settings", {}).items():
    globals()[_k] = _v
