"""builds the MIR driver and warms the dependency build"""
from . import mir

mir.ensure_driver()
for cfg in ('debug', 'release'):
    p = mir.dump(cfg)
    print('%s: %d functions, %d bodies' % (cfg, len(p.roots), len(p.bodies)))
