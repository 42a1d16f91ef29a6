UNITS = []
for e in (0, 1):
    UNITS.append(dict(name='read_table_%s' % ('ext' if e else 'mbr'), src='read.c', fn='h_table', wrap=True, functions=['read_table', 'raw_part_is_extended', 'linear_start'], unwind=70,
                      defines=['-DISEXT=%d' % e, '-DVT_NO_ENV_EXC'], replace_calls=[('raw_part_parse', 'ct_parse'), ('read_table', 'ct_sub')], late='late.c', no_native=True))
def G(name, h, funs, **k):
    UNITS.append(dict(dict(name=name, src='geom.c', fn=h, wrap=True, functions=funs, unwind=20), **k))
G('probe_partition_for_geom', 'h_part', ['probe_partition_for_geom', 'chs_get_cylinder', 'chs_get_head', 'chs_get_sector'])
for ss in (512, 4096):
    G('probe_filesystem_for_geom_%d' % ss, 'h_fs', ['probe_filesystem_for_geom'], defines=['-DSS=%d' % ss])
G('partition_check_bios_geometry', 'h_check', ['partition_check_bios_geometry', 'legacy_start', 'legacy_end', 'chs_to_sector'])
G('msdos_read', 'h_read', ['msdos_read'], replace_calls=[('read_table', 'ct_table'), ('disk_check_bios_geometry', 'ct_check'), ('disk_probe_bios_geometry', 'ct_guess')], no_native=True)
LEVEL = 'proof'
TRUSTED = ['ptt_read_sector: a fresh copy of the sector or failure (P15)', 'raw_part_parse: a fresh partition that covers what the entry says (P12), or failure', 'ped_disk_add_partition (P07)', 'ped_file_system_probe: any answer (P22)', 'ped_constraint_exact', 'ped_geometry_read: bytes of the region or failure (P02)', 'disk_probe_bios_geometry: its answer depends on the disk content only']
ASSUMPTIONS = ['the contract of the inner calls of read_table is its own contract (induction over the number of extended tables that may still be read, at most 256)', 'partition starts up to 2^33']
