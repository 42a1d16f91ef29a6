UNITS = []
def T(name, h, funs, ss, **k):
    UNITS.append(dict(dict(name=name, src='tools.c', fn=h, wrap=True, unwind=3, functions=funs, defines=['-DSS=%d' % ss, '-DNMAX=(1LL<<40)', '-DVT_UNBOUNDED'],
        loops_for=[dict(fn='ptt_clear_sectors', assigns='i, done, failed', inv='0 <= i && i <= n_full && done == i * n_z_sectors && failed == 0', dec='n_full - i')],
        fallback=dict(defines=['-DSS=%d' % ss, '-DNMAX=%d' % (16384 // ss * 5)], unwind=7, bounded='at most five buffers of sectors')), **k))
for ss in (512, 4096, 16384):
    T('ptt_clear_sectors_%d' % ss, 'h_clear', ['ptt_clear_sectors'], ss)
    UNITS.append(dict(name='clear_zeroes_%d' % ss, src='tools.c', fn='h_clear', wrap=True, unwind=5, functions=['ptt_clear_sectors'], defines=['-DSS=%d' % ss, '-DNMAX=%d' % (16384 // ss * 3)], bounded='at most three buffers of sectors (content of the buffer; number and order of sectors are proved without bound)'))
T('ptt_geom_clear_sectors', 'h_geom', ['ptt_geom_clear_sectors', 'ptt_clear_sectors'], 512)
LEVEL = 'proof'
TRUSTED = ['ped_device_write/read/open/close: arbitrary outcome (P02, P03, P20)', 'gpt_probe: arbitrary answer; a GPT needs at least two sectors', 'writing the label itself: arbitrary outcome (P09, P12, P23)']
ASSUMPTIONS = ['ptt_read_sectors aborts when no memory is left (not checked)', 'sector numbers up to 2^60']
for ss in (512, 4096):
    UNITS.append(dict(name='ptt_write_sector_%d' % ss, src='sector.c', fn='h_write', wrap=True, unwind=ss + 2, functions=['ptt_write_sector'], defines=['-DSS=%d' % ss], thorough_only=ss == 4096))
    UNITS.append(dict(name='ptt_read_sectors_%d' % ss, src='sector.c', fn='h_read', wrap=True, unwind=3, functions=['ptt_read_sectors', 'ptt_read_sector'], defines=['-DSS=%d' % ss]))
UNITS.append(dict(name='ped_disk_clobber', src='clobber.c', fn='h_clobber', wrap=True, unwind=8, functions=['ped_disk_clobber', 'find_disk_type'], cbmc=[]))
UNITS.append(dict(name='commit', src='clobber.c', fn='h_commit', wrap=True, unwind=8, functions=['ped_disk_commit', 'ped_disk_commit_to_dev', 'ped_disk_commit_to_os'], replace_calls=[('ped_disk_clobber', 'ct_clobber')], no_native=True))
for h in ('clobber', 'exclude'):
    UNITS.append(dict(name='ped_file_system_' + h, src='fs.c', repo=['libparted/cs/geom.c'], fn='h_' + h, wrap=True, unwind=8, functions=['ped_file_system_clobber', 'ped_file_system_clobber_exclude'][:1 if h == 'clobber' else 2]))
