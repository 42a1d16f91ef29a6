FN = ['set', 'init', 'set_start', 'set_end', 'new', 'duplicate', 'intersect', 'test_overlap', 'test_inside',
      'test_equal', 'test_sector_inside', 'map']
UNITS = [dict(name='ped_geometry_' + f, src='geom.c', contracts=['geom.ct'], repo=['libparted/cs/geom.c'],
              enforce='ped_geometry_' + f) for f in FN]
LEVEL = 'proof'
TRUSTED = []
ASSUMPTIONS = []
