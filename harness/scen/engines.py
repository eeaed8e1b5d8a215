"""Databases by all the names their engines go by: known ones and those with a backend in the settings behave like any other,
unknown ones are refused."""
import sys

import boot
from common import Violation
from scen import history
from scen.lifecycle import catalog


def run(cfg, res):
    boot.setup(install=False)
    from django.core.management import call_command
    from denorm import denorms
    if not cfg.get('refused'):
        try:
            call_command('denorm_init')
            if not catalog('default'):
                raise Violation("not_installed", "no triggers on engine %s" % cfg['engine'])
            call_command('denorm_drop')
            if catalog('default'):
                raise Violation("not_dropped", "triggers stay on engine %s" % cfg['engine'])
        except Violation:
            raise
        except Exception as e:
            raise Violation("not_installed", "installing fails on engine %s with backend %s: %r" % (
                cfg['engine'], cfg.get('denorm_backend'), e))
        history.run(cfg, res)
        if cfg.get('denorm_backend') == 'vengine.mine':
            if 'vengine.mine.triggers' not in sys.modules:
                raise Violation("backend_ignored", "the backend named in the settings was not used")
            res.cov['own_backend_used'] += 1
        res.cov['engine:%s:%s' % (cfg['engine'], cfg.get('denorm_backend'))] += 1
        return
    for what in (lambda: call_command('denorm_init'), denorms.install_triggers):
        try:
            what()
        except ImportError as e:
            if not str(e):
                raise Violation("engine_not_refused", "refused without saying why")
        else:
            raise Violation("engine_not_refused", "triggers are made for %s" % cfg['engine'])
        if catalog('default'):
            raise Violation("engine_not_refused", "there are triggers after installing was refused")
        res.note(('refused', cfg['engine'], cfg['backend'], repr(what)), engine=cfg['engine'])
    res.cov['refused'] += 1
