SHAPES = [(0, -1, 0), (1, -1, 0), (2, -1, 0), (3, -1, 0), (1, 0, 0), (1, 0, 1), (1, 0, 2), (2, 0, 0), (2, 1, 1), (2, 0, 2), (2, 1, 2), (3, 1, 1), (3, 1, 2)]
B = 'tables of up to 3 primary/extended and 2 logical partitions (every listed shape); every sector position, role and number'
EN = ('ped_disk_enumerate_partitions', 'ct_enumerate')
EX = ('ped_disk_extended_partition', 'ct_ext')
UNITS = []
def U(fn, fs, shapes, rc, **k):
    for p, e, l in shapes:
        UNITS.append(dict(name='%s_%d%s%d' % (fn[2:], p, 'n' if e < 0 else e, l), src='walk.c', contracts=['walk.ct'], repo=['libparted/cs/geom.c'], fn=fn,
                          functions=fs, wrap=True, replace_calls=rc, sat=k.get('sat', 'cadical'), bounded=B, no_native=k.get('no_native'),
                          unwind=p + l + 4 if fn in ('h_rm_free', 'h_rm_meta', 'h_walk') else 2 * max(p, l) + 4, weight=(p + l) * (20 if 'alloc' in fn else 1), thorough_only=(fn, p) == ('h_alloc', 3), defines=['-DSH_P=%d' % p, '-DSH_E=%d' % e, '-DSH_L=%d' % l]))
U('h_alloc_ext', ['_alloc_extended_freespace'], [(1, 0, 0), (1, 0, 1), (1, 0, 2)], [EN, EX])
U('h_alloc', ['_disk_alloc_freespace'], [(0, -1, 0), (1, -1, 0), (2, -1, 0), (3, -1, 0), (2, 1, 0)], [EN, ('_alloc_extended_freespace', 'ct_alloc_ext'), ('_disk_remove_freespace', 'ct_nofree'), EX])
U('h_rm_free', ['_disk_remove_freespace'], SHAPES, [EN, EX])
U('h_rm_meta', ['_disk_remove_metadata'], SHAPES, [('ped_disk_delete_partition', 'ct_delete'), EX])
U('h_walk', ['ped_disk_next_partition', 'ped_disk_get_partition_by_sector', 'ped_disk_get_partition', 'ped_disk_get_primary_partition_count',
             'ped_disk_get_last_partition_num', 'ped_disk_extended_partition'], SHAPES, [])
U('h_mode', ['_disk_push_update_mode', '_disk_pop_update_mode'], [(0, -1, 0)], [('_disk_remove_freespace', 'ct_remove_free'), ('_disk_remove_metadata', 'ct_remove_meta'),
   ('_disk_alloc_metadata', 'ct_alloc_meta'), ('_disk_alloc_freespace', 'ct_alloc_free')], no_native=True)
LEVEL = 'other'
TRUSTED = ['label operations: arbitrary answers within their contracts (inc/spec_disk.h)']
ASSUMPTIONS = ['list shapes up to the stated bound; sector numbers below 2^40']
