M32, INF = '0xffffffffULL', '(~0ULL)'
UNITS = []
for n, f, ms, ml in (('msdos', 'dos', M32, M32), ('gpt', 'gpt', INF, INF), ('dvh', 'dvh', M32, M32), ('mac', 'mac', M32, M32), ('sun', 'sun', '(128*0xffffffffULL)', M32), ('bsd', 'bsd', M32, M32),
                     ('loop', 'loop', INF, INF), ('pc98', 'pc98', M32, M32), ('amiga', 'rdb', M32, M32), ('atari', 'atari', '0x7fffffffULL', '0x7fffffffULL')):
    UNITS.append(dict(name='limits_' + n, src='label.c', repo=['libparted/labels/pt-tools.c'], fn='h_check', wrap=True, unwind=12,
                      functions=['%s_partition_check' % n, '%s_partition_max_length' % n, '%s_partition_max_start_sector' % n, 'ptt_partition_max_start_len', 'ptt_partition_max_start_sector', 'ptt_partition_max_length', 'pt_limit_lookup'],
                      defines=['-DLABEL=' + n, '-DLABEL_FILE="libparted/labels/%s.c"' % f, '-DMS=' + ms, '-DML=' + ml]))
UNITS.append(dict(name='lookup', src='tools.c', fn='h_lookup', wrap=True, unwind=20, functions=['pt_limit_lookup', 'ptt_partition_max_start_len', 'ptt_partition_max_start_sector', 'ptt_partition_max_length']))
UNITS.append(dict(name='table_asks_label', src='disk.c', fn='h_limits', wrap=True, unwind=6, replace_calls=[('ped_disk_extended_partition', 'ct_ext'), ('_check_extended_partition', 'ct_check_ext')], no_native=True,
                  functions=['_check_partition', 'ped_disk_max_partition_length', 'ped_disk_max_partition_start_sector']))
LEVEL = 'proof'
TRUSTED = ['ped_exception_throw: one of the choices offered (P16)']
ASSUMPTIONS = ['label names longer than 7 characters are not tried in the unit "lookup" (the real names are at most 5 long and the code rejects longer ones by length)', 'dasd (s390 only) and aix (neither read nor written by parted) are not checked through their own ops tables']
