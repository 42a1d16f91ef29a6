UNITS = []
HF = ['_generate_header', 'pth_crc32', 'pth_free']
def W(name, fn, funs, *d, **k):
    UNITS.append(dict(dict(name=name, src='write.c', contracts=['write.ct'], fn=fn, functions=funs, wrap=True, defines=list(d), unwind=8200, thorough_only='-DSS=4096' in d), **k))
RC = [('pth_new_zeroed', 'ct_new_zeroed'), ('pth_get_raw', 'ct_get_raw'), ('_write_pmbr', 'ct_write_pmbr'), ('_partition_generate_part_entry', 'ct_gen_entry')]
for ss in (512, 1024, 4096):
    W('_write_pmbr_%d' % ss, 'h_pmbr', ['_write_pmbr'], '-DSS=%d' % ss)
    W('pth_get_raw_%d' % ss, 'h_raw', ['pth_get_raw'], '-DSS=%d' % ss)
    if ss < 4096: W('pth_new_zeroed_%d' % ss, 'h_zeroed', ['pth_new_zeroed', 'pth_new'], '-DSS=%d' % ss)
    W('gpt_write_%d' % ss, 'h_write', ['gpt_write'] + HF, '-DSS=%d' % ss, replace_calls=RC, bounded='at most 2 partitions in the walk')
W('_partition_generate_part_entry', 'h_entry', ['_partition_generate_part_entry'])
for ss in (512, 4096):
    for f, fs in (('h_alloc', ['gpt_alloc']), ('h_meta', ['gpt_alloc_metadata', 'add_metadata_part']), ('h_dup', ['gpt_duplicate'])):
        UNITS.append(dict(name='%s_%d' % (fs[0], ss), src='alloc.c', contracts=['alloc.ct'], fn=f, functions=fs, wrap=True, repo=['libparted/cs/geom.c'], defines=['-DSS=%d' % ss], unwind=20))
LEVEL = 'proof'
TRUSTED = ['CRC-32 routine: the value depends on the bytes only (proved standard in P19)', 'ped_device_read/write/sync: arbitrary outcome per call', 'ped_disk_next_partition: visits each partition once (P08)', 'uuid_generate']
ASSUMPTIONS = ['usable range leaves room for the tables (proved for gpt_alloc; not validated by the code for tables read from disk)', 'partition numbers distinct and within the entry count', 'ped_malloc succeeds when building a header']
