UNITS = []
SS_UNWIND = 30
def W(name, src, h, funs, *d, **k):
    UNITS.append(dict(dict(name=name, src=src + '.c', contracts=[src + '.ct'], fn=h, functions=funs, wrap=True, unwind=130, defines=list(d)), **k))
for hd, sc in ((255, 63), (16, 63), (64, 32), (128, 63), (256, 63), (2, 18), (1, 1)):
    b = dict(bounded='CHS geometries 255/63, 16/63, 64/32, 128/63, 256/63, 2/18, 1/1; up to cylinder 1100 (2^24 for 64/32 and 1/1)')
    D = ['-DHEADS=%d' % hd, '-DSECTS=%d' % sc, '-DCMAX=%s' % ('(1<<24)' if hd & (hd - 1) == 0 and sc & (sc - 1) == 0 else '1100')]
    for n, h in (('sector_to_chs', 'h_to'), ('chs_to_sector', 'h_from'), ('chs_round', 'h_round')):
        W('%s_%d_%d' % (n, hd, sc), 'chs', h, ['sector_to_chs', 'chs_to_sector', 'chs_get_cylinder', 'chs_get_head', 'chs_get_sector'], *D, **b)
RC = [('partition_probe_bios_geometry', 'ct_probe'), ('sector_to_chs', 'ct_chs')]
W('fill_raw_part', 'entry', 'h_fill', ['fill_raw_part'], replace_calls=RC, no_native=True)
W('fill_ext_raw_part_geom', 'entry', 'h_fill_ext', ['fill_ext_raw_part_geom'], replace_calls=RC, no_native=True)
W('raw_part_is_extended', 'entry', 'h_is_ext', ['raw_part_is_extended'])
W('raw_part_parse', 'entry', 'h_parse', ['raw_part_parse', 'linear_start', 'linear_end'])
W('entry_round_trip', 'entry', 'h_round', ['fill_raw_part', 'raw_part_parse'], replace_calls=RC, no_native=True)
for ss in (512, 1024, 4096):
    D = '-DSS=%d' % ss
    PR = [('partition_probe_bios_geometry', 'ct_probe')]
    FR = [('fill_raw_part', 'ct_fill'), ('fill_ext_raw_part_geom', 'ct_fill_ext')]
    o = dict(no_native=True, unwind=SS_UNWIND, thorough_only=ss == 4096)
    W('msdos_write_%d' % ss, 'write', 'h_mbr', ['msdos_write'], D, replace_calls=PR + FR + [('write_extended_partitions', 'ct_exts')], **o)
    W('write_ext_table_%d' % ss, 'write', 'h_ext', ['write_ext_table'], D, replace_calls=PR + FR + [('write_ext_table', 'ct_ext')], late='late.c', **o)
    W('write_empty_table_%d' % ss, 'write', 'h_empty', ['write_empty_table'], D, **o)
    if ss == 512: W('write_extended_partitions', 'write', 'h_exts', ['write_extended_partitions'], D, replace_calls=PR + [('write_ext_table', 'ct_e_ext'), ('write_empty_table', 'ct_e_empty')], **o)
LEVEL = 'proof'
TRUSTED = ['ptt_read_sector: a fresh copy of the sector or failure (P15)', 'ped_device_write/sync: arbitrary outcome', 'geometry guess of the BIOS: any (CHS values are hints)', 'generate_random_uint32', 'ped_disk_get_partition: the partition that bears the number (P08)', 'ped_geometry_new (P01)', 'ped_partition_new: fresh partition or NULL']
ASSUMPTIONS = ['the table in front of a logical partition is its predecessor in the list (metadata allocation)', 'sector sizes 512 and 1024; 4096 in thorough']
# what does not fit the 32-bit fields is refused
UNITS.append(dict(name='limits_msdos', src='../P14/label.c', repo=['libparted/labels/pt-tools.c'], fn='h_check', wrap=True, unwind=12, functions=['msdos_partition_check', 'ptt_partition_max_start_len'],
                  defines=['-DLABEL=msdos', '-DLABEL_FILE="libparted/labels/dos.c"', '-DMS=0xffffffffULL', '-DML=0xffffffffULL']))
UNITS.append(dict(name='table_asks_label', src='../P14/disk.c', fn='h_limits', wrap=True, unwind=6, replace_calls=[('ped_disk_extended_partition', 'ct_ext'), ('_check_extended_partition', 'ct_check_ext')], no_native=True, functions=['_check_partition']))
