UNITS = []
def W(name, fn, funs, *d, **k):
    UNITS.append(dict(dict(name=name, src='read.c', contracts=['read.ct'], fn=fn, functions=funs, wrap=True, defines=list(d) + ['-DVT_NO_ENV_MALLOC'], unwind=100, split=[r'^VTC_.*$', r'efi_crc32.assertion$']), **k))
W('_header_is_valid', 'h_valid', ['_header_is_valid', 'check_PE_array_CRC', 'gpt_read_PE_array', 'pth_crc32', 'pth_get_raw'], repo=['libparted/cs/natmath.c'])
LEVEL = 'proof'
TRUSTED = ['device read: arbitrary outcome and contents', 'CRC-32 value depends on the bytes only (P19)']
ASSUMPTIONS = ['sector size 512', 'allocations up to 2^40 bytes succeed, larger ones fail']

RV = [('_header_is_valid', 'ct_valid')]
G = ['libparted/cs/natmath.c', 'libparted/cs/geom.c']
W('_parse_header', 'h_parse', ['_parse_header', '_ptes_sectors'], '-DVT_OWN_EXC', '-DVT_NO_ENV_EXC', repo=G)
W('gpt_read_headers', 'h_headers', ['gpt_read_headers', 'pth_new_from_raw', 'pth_free'], replace_calls=RV)
W('gpt_get_max_supported_partition_count', 'h_max', ['gpt_get_max_supported_partition_count'], replace_calls=RV)
W('gpt_probe', 'h_probe', ['gpt_probe', '_pmbr_is_valid'])
for pes, pen in ((128, 1), (128, 3), (136, 3)):
    UNITS.append(dict(name='gpt_read_%x_%d' % (pes, pen), src='gptread.c', contracts=['gptread.ct'], fn='h_read', functions=['gpt_read', '_hdr_disk_end', '_ptes_sectors', 'pth_free'], wrap=True,
        repo=['libparted/cs/natmath.c', 'libparted/cs/geom.c'], unwind=20, no_native=True, defines=['-DPES=%d' % pes, '-DPEN=%d' % pen],
        bounded='entry count at most 3; entry sizes 128 and 136',
        replace_calls=[('guid_cmp', 'ct_guid'), ('gpt_probe', 'ct_probe'), ('gpt_read_headers', 'ct_headers'), ('_parse_header', 'ct_parse'), ('gpt_read_PE_array', 'ct_array'), ('_parse_part_entry', 'ct_entry')]))
