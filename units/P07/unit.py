SHAPES = [(0, -1, 0), (1, -1, 0), (2, -1, 0), (3, -1, 0), (1, 0, 0), (1, 0, 1), (1, 0, 2), (2, 0, 0), (2, 1, 1), (2, 0, 2), (2, 1, 2), (3, 1, 1), (3, 1, 2)]
B = 'tables of up to 3 primary/extended and 2 logical partitions (every listed shape); every sector position, number and constraint'
RC = [('_disk_push_update_mode', 'ct_push'), ('_disk_pop_update_mode', 'ct_pop'), ('ped_disk_enumerate_partitions', 'ct_enumerate')]
UNITS = []
QUICK = [(0, -1, 0), (1, -1, 0), (2, -1, 0), (1, 0, 1), (2, 0, 2), (2, 1, 2)]
def U(fn, real, picks=False, also=[], defs=[''], rc=RC, **k):
    for p, e, l in SHAPES:
        targets = list(range(p)) + [3 + i for i in range(l)] if picks else [None]
        for t in targets:
          for x in defs:
            if t is not None and t == e and l and real == 'ped_disk_remove_partition':
                continue     # contract precondition: an extended partition to be removed is empty
            d = ['-DSH_P=%d' % p, '-DSH_E=%d' % e, '-DSH_L=%d' % l] + (['-DPICK=%d' % t] if t is not None else []) + x.split()
            UNITS.append(dict(name='%s_%d%s%d%s%s' % (real, p, 'n' if e < 0 else e, l, '' if t is None else '_t%d' % t, x and '_n%d' % defs.index(x)), src='edit.c', contracts=['edit.ct'],
                repo=['libparted/cs/geom.c'], fn=fn, functions=[real] + also, wrap=True, replace_calls=rc, sat='minisat2',
                thorough_only=(p, e, l) not in QUICK, weight=10 * (p + l) if k.get('w') else 1, bounded=B, unwind=9, defines=d))
T = 'PED_PARTITION_'
U('h_add', 'ped_disk_add_partition', also=['_partition_get_overlap_constraint', '_check_partition', '_disk_raw_add', '_partition_check_basic_sanity'], w=1,
  defs=['-DNEWTYPE=' + T + t + r for r in ('', ' -DREADING') for t in ('NORMAL', 'LOGICAL', 'EXTENDED')])
U('h_remove', 'ped_disk_remove_partition', True, also=['_disk_raw_remove'])
U('h_set_geom', 'ped_disk_set_partition_geom', True, w=1)
U('h_maximize', 'ped_disk_maximize_partition', True, w=1)
U('h_minimize', 'ped_disk_minimize_extended_partition', w=1)
U('h_delete', 'ped_disk_delete_partition', True, also=['ped_disk_delete_all_logical'])
U('h_delete_all', 'ped_disk_delete_all')
LEVEL = 'other'
TRUSTED = ['label operations (partition_align, metadata, enumerate): arbitrary answers within their contracts, given in inc/spec_disk.h','constraint and region constructors: contracts proved in P01/P06']
ASSUMPTIONS = ['list shapes up to the stated bound; sector numbers below 2^40','requested start >= 0 (documented precondition of ped_geometry_set)']
