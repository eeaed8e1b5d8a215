from vengine.pool.base import *   # noqa
