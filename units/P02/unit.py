UNITS = [dict(name='ped_geometry_' + f, src='io.c', contracts=['io.ct'], repo=['libparted/cs/geom.c'],
              enforce='ped_geometry_' + f) for f in ['read', 'write', 'read_alloc', 'sync', 'sync_fast']]
UNITS += [dict(name='ped_geometry_check', src='check.c', repo=['libparted/cs/geom.c'], fn='h_check', functions=['ped_geometry_check'],
               unwind=5, sat='minisat2', bounded='at most 3 sectors checked per call, region within the first 16 sectors')]
LEVEL = 'proof'
TRUSTED = ['device layer below (ped_device_read/write/sync): arbitrary status, no side effect on the region', 'ped_malloc: fresh memory or NULL']
ASSUMPTIONS = ['sector numbers at most 2^60', 'ped_geometry_check: bounded to 3 sectors in a small region, a fixed set of bad sectors']
