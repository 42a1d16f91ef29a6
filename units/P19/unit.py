UNITS = [
  dict(name='crc32', src='crc.c', fn='h_crc', wrap=True, unwind=9, functions=['__efi_crc32'], smt=['--z3'], split=['crc.*$'],
       loops_for=[dict(fn='__efi_crc32', assigns='i, crc32val', inv='i <= len && crc32val == crc[i]', dec='len - i')],
       fallback=dict(smt=None, split=None, defines=['-DMAXLEN=8', '-DFALLBACK'], unwind=9, bounded='buffers of up to 8 bytes')),
  dict(name='byte', src='crc.c', fn='h_byte', wrap=True, unwind=9, functions=['__efi_crc32']),
  dict(name='efi_crc32', src='gptcrc.c', fn='h_wrap', wrap=True, unwind=2, functions=['efi_crc32'], replace_calls=[('__efi_crc32', 'ct_crc')], no_native=True),
  dict(name='check_value', src='gptcrc.c', fn='h_value', wrap=True, unwind=11, functions=['efi_crc32', '__efi_crc32'], repo=['libparted/labels/efi_crc32.c']),
]
LEVEL = 'proof'
TRUSTED = []
ASSUMPTIONS = ['buffers of up to 2^40 bytes']
