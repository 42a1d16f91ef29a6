UNITS = [dict(name='ped_device_' + f, src='dev.c', contracts=['dev.ct'], repo=['libparted/device.c'], enforce='ped_device_' + f, wrap=True)
         for f in ['open', 'close', 'begin_external_access', 'end_external_access', 'read', 'write', 'check', 'sync', 'sync_fast']]
LEVEL = 'proof'
TRUSTED = ['the architecture driver behind the operation table: arbitrary status']
ASSUMPTIONS = ['open count below 1000000 (no counter overflow)']
