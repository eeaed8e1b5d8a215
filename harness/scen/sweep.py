"""Systematic counterpart of the random histories: from a fully linked state every column goes through its transitions
(value to value, to NULL and back, only the case of letters) by every way of writing, every relation through every edit,
every model through every way of creating and deleting rows."""
import boot
from common import seeded
from scen.history import Monitors, do_flush


def run(cfg, res):
    boot.setup()
    from engine import World
    rng = seeded(cfg['seed'], 'sweep', cfg['case'], cfg.get('stream', cfg['backend']))
    w = World(rng, max_rows=6)
    on = cfg['oracles']
    # what an object linked to itself gets from its own row is older than what is being saved
    w.no_loops = 'immediate' in on
    mon = Monitors(w, res, on)
    share, of = cfg.get('share', (0, 1))

    def step(op):
        res.trace.append(op)
        mon.before(op)
        w.apply(op)
        res.cov['steps'] += 1
        mon.after(op)
        if cfg.get('pflush') and rng.random() < cfg['pflush']:
            do_flush(w, res, on)

    w.populate(cfg.get('k', 2))
    do_flush(w, res, on)
    if cfg.get('noops'):
        ops = w.sweep_noops()
    else:
        ops = w.sweep_ops(cfg.get('apis', ['save', 'save_uf', 'qs', 'raw']))
    res.cov['sweep_ops'] += len(ops)
    for i, op in enumerate(ops):
        if i % of == share:
            # markers of earlier steps would hide that this one is not noticed
            if 'silent' in on or 'quiet' in on or 'immediate' in on:
                do_flush(w, res, on)
            step(op)
    for op in w.sweep_rows() if not cfg.get('noops') else ():
        if 'silent' in on or 'quiet' in on:
            do_flush(w, res, on)
        step(op)
    do_flush(w, res, on)
    res.cov.update(w.cov)
