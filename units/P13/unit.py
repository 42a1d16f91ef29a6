UNITS = []
def W(name, h, *funs, **k):
    UNITS.append(dict(dict(name=name, src='flags.c', contracts=['flags.ct'], fn=h, functions=list(funs) or [name], wrap=True, unwind=25), **k))
W('msdos_partition_set_flag', 'h_set_flag', 'msdos_partition_set_flag', 'dos_type_id_set_hidden', 'dos_type_id_set_lba', 'dos_find_flag_id_mapping', bounded='tables of at most four active partitions (for the boot flag)')
W('msdos_partition_get_flag', 'h_get_flag', 'msdos_partition_get_flag', 'dos_type_id_is_hidden', 'dos_type_id_is_lba')
W('msdos_partition_is_flag_available', 'h_avail', 'msdos_partition_is_flag_available', 'dos_type_id_supports_hidden', 'dos_type_id_supports_lba')
W('type_flags_exclusive', 'h_exclusive', 'msdos_partition_get_flag')
W('msdos_partition_set_system', 'h_set_system', 'msdos_partition_set_system', 'is_skip_type')
W('msdos_partition_set_type_id', 'h_type_id', 'msdos_partition_set_type_id', 'msdos_partition_get_type_id')
W('msdos_disk_flags', 'h_disk_flag', 'msdos_disk_set_flag', 'msdos_disk_get_flag', 'msdos_disk_is_flag_available')
LEVEL = 'proof'
TRUSTED = ['ped_disk_next_partition: visits each entry once (P08)', 'ped_partition_set_system: forwards to the label (disk.c)']
ASSUMPTIONS = ['an extended partition carries one of the extended type ids', 'flag states are 0 or 1']
for f, h in (('ped_partition_set_flag', 'h_set'), ('ped_partition_get_flag', 'h_get'), ('ped_partition_is_flag_available', 'h_avail'), ('ped_partition_set_system', 'h_sys'), ('ped_disk_set_flag', 'h_dset'), ('ped_disk_get_flag', 'h_dget')):
    W(f, h, **dict(src='api.c', contracts=['api.ct'], repo=['libparted/disk.c', 'libparted/cs/geom.c'], unwind=4))
