UNITS = []
RC = [('_get_linux_version', 'ct_version'), ('_flush_cache', 'ct_flush'), ('ped_device_read', 'ct_dev_read'), ('ped_device_write', 'ct_dev_write')]
RL = RC + [('_read_lastoddsector', 'ct_last_read'), ('_write_lastoddsector', 'ct_last_write')]
def X(n, h, f, **k): UNITS.append(dict(dict(name=n, src='linux.c', fn=h, wrap=True, unwind=16, functions=f, replace_calls=RC, no_native=True), **k))
SEEK = dict(assigns='ex_status, fpos, ignored, throws', inv='ignored == 0')
RD = dict(k=1, assigns='ex_status, read_length, buffer, ignored, throws, fpos, dpos, dlen, got, wrong, lasterr',
          inv='ignored == 0 && wrong == 0 && read_length <= T && got == T - read_length && fpos == P0 + (long long) got && buffer == (void *) (U + got)')
WR = dict(k=1, assigns='ex_status, write_length, diobuf, ignored, throws, fpos, done, wrote, lasterr',
          inv='ignored == 0 && write_length <= T && done == T - write_length && fpos == P0 + (long long) done && diobuf == (void *) (D + done)')
CK = dict(assigns='status, n_read, fpos, dpos, dlen, got, wrong, lasterr',
          inv='wrong == 0 && n_read <= T && got == n_read && fpos == P0 + (long long) got', dec='T - n_read')
FB = dict(unwind=4, defines=['-DFALLBACK'], cbmc=['--no-unwinding-assertions'], bounded='at most three transfers or retries per loop')
X('read', 'h_read', ['linux_read', '_device_seek'], replace_calls=RL, fallback=FB, loops_for=[dict(SEEK, fn='linux_read'), dict(RD, fn='linux_read')])
X('write', 'h_write', ['linux_write', '_device_seek'], replace_calls=RL, fallback=FB, loops_for=[dict(SEEK, fn='linux_write'), dict(WR, fn='linux_write')])
X('check', 'h_check', ['linux_check', '_device_seek'], fallback=FB, loops_for=[dict(CK, fn='linux_check')])
X('sync', 'h_sync', ['linux_sync', 'linux_sync_fast', '_do_fsync'], fallback=FB, loops_for=[dict(fn='_do_fsync', assigns='status, ex_status, ignored, throws, synced', inv='ignored == 0')])
X('last_odd_sector', 'h_last', ['_read_lastoddsector', '_write_lastoddsector'], unwind=1, cbmc=['--no-unwinding-assertions'], bounded='no retry (a retry starts over)')
X('seek', 'h_seek', ['_device_seek'])
LEVEL = 'proof'
TRUSTED = ['read, write, lseek, fsync, ioctl, memcpy, posix_memalign, free: operating system and C library contracts (a transfer moves at most the bytes asked for, from or to the current position, which an error leaves alone)', 'ped_device_read/write on the old-kernel path: property P03', '_flush_cache']
ASSUMPTIONS = ['sector sizes 512 to 4096, devices up to 2^50 sectors, transfers up to 2^30 sectors', 'exceptions are answered with an offered choice or not at all (P16)', 'termination is not claimed: the user may retry for ever']
