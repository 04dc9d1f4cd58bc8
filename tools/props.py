# property -> harnesses [(driver, harness regex, obligation regex)]
ASSUME = [
 'machine floating point is treated as real arithmetic; identities hold up to coefficients below 1e-9 (constants are the doubles of the source, rationals/square roots recognised)',
 'deal.II / Trilinos vectors, small dense vectors and matrices, logging and MPI guards follow the contracts in drivers/models.h and drivers/fakes.h',
 'integer arithmetic on symbolic indices is mathematical (no overflow)',
]
PROPS = {
 'C01': dict(harnesses=[('collision', 'cons_.*|init_.*', 'mass|momentum'), ('equilibria', 'eqmom_.*', 'equilibrium-moment-[01]')]),
 'C02': dict(harnesses=[('collision', 'cons_.*|init_.*', 'density-output|velocity-output|velocity-untouched')]),
 'C04': dict(harnesses=[('collision', 'stress_.*', 'shear-stress|normal-stress')]),
 'C05': dict(harnesses=[('collision', 'fix_.*', 'equilibrium-.*')]),
 'C08': dict(harnesses=[('collision', '(shift|edm|shiftinit|edminit|refuse)_.*', 'force-.*|unsupported-forcing-refused'), ('equilibria', 'eqmom_d3q(45|77)_.*', 'equilibrium-moment-[01]')]),
 'C09': dict(harnesses=[('collision', 'dispatch_.*|once_.*', 'configured-collision-once|supported-configuration-runs|refused-configuration-does-not-collide|unsupported-configuration-refused')]),
 'C10': dict(harnesses=[('collision', '(cons|init)_.*', 'empty-part-accepted|rejects-only-vanishing-density|vanishing-density-rejected')]),
 'C11': dict(harnesses=[('collision', 'local_.*', 'local')]),
 'C30': dict(harnesses=[('collision', 'iso_.*', 'isotropic')]),
 'C03': dict(harnesses=[('compressible', '(ccons|ccons_pr|cinit)_.*', 'mass|momentum|energy'), ('equilibria', 'eqmom_(d2q25h|d2q19h|d2q19v|d3q45|d3q77).*', 'equilibrium-moment-[01]|equilibrium-energy')]),
 'C06': dict(harnesses=[('equilibria', 'stencil_.*', 'stencil-.*')]),
 'C07': dict(harnesses=[('equilibria', 'eqmom_.*', 'equilibrium-.*')]),
 'C20': dict(harnesses=[('compressible', '(ccons|ccons_pr|cinit)_.*', 'density-output|velocity-output|velocity-untouched|temperature-output|rejects-only-vanishing-density|vanishing-density-rejected|empty-part-accepted')]),
 'C31': dict(harnesses=[('compressible', 'crelax_.*|cstar_.*|crate_.*d2.*', 'compressible-relaxation|energy-flux|heat-flux.*|internal-energy-equilibrium|star-.*|compressible-shear-stress|compressible-normal-stress')]),
 'C12': dict(harnesses=[('classic', '(class|classinit|relax|relaxinit|cforce)_.*', 'classic-.*|rejects-only-vanishing-density|relaxes-to-own-equilibrium|empty-part-accepted')]),
 'C13': dict(harnesses=[('moments', '.*', '.*')]),
 'C22': dict(harnesses=[('sedg', '.*', '.*')]),
 'C14': dict(harnesses=[('timeint', '.*', '.*')]),
 'C17': dict(harnesses=[('boundary', '.*', '.*')]),
 'C15': dict(harnesses=[('semilag', '.*', '.*')], slow='face_3.*'),
 'C27': dict(harnesses=[('solver', '(run|stop|change|stream|gstream|filter|collide)_.*', '.*')]),
 'C16': dict(harnesses=[('stabilizer', 'pes_.*', '.*')]),
 'C19': dict(harnesses=[('physical', '(phys|turbulence|stats|errors|plane)_.*', '.*')]),
 'C28': dict(harnesses=[('solver', '(init|iterative_|addvelocity_|scalevelocity_|fields_|restart_).*', '.*')]),
 'C18': dict(harnesses=[('smoothing', '.*', '.*')], slow='filter_exp_3_2'),
 'C21': dict(harnesses=[('utils', '.*', '.*')]),
 'C32': dict(harnesses=[('classic', 'feq_.*', 'initial-.*')]),
}
