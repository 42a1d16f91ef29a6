UNITS = []
def F(n, h, f, **k): UNITS.append(dict(dict(name=n, src='flags.c', fn=h, wrap=True, unwind=33, functions=f), **k))
F('flag', 'h_flag', ['ped_partition_flag_get_name', 'ped_partition_flag_get_by_name', 'ped_partition_flag_next'])
F('flag_by_name', 'h_flag_name', ['ped_partition_flag_get_by_name', 'ped_partition_flag_next', 'ped_partition_flag_get_name'])
F('flag_next', 'h_flag_next', ['ped_partition_flag_next', 'ped_partition_flag_get_name'])
F('disk_flag', 'h_dflag', ['ped_disk_flag_get_name', 'ped_disk_flag_get_by_name', 'ped_disk_flag_next'])
F('type_name', 'h_type', ['ped_partition_type_get_name'])
def U(n, h, f, **k): UNITS.append(dict(dict(name=n, src='unitnames.c', fn=h, wrap=True, unwind=17, functions=f), **k))
U('unit', 'h_unit', ['ped_unit_get_name', 'ped_unit_get_by_name'])
U('unit_by_name', 'h_unit_name', ['ped_unit_get_by_name'])
LEVEL = 'proof'
TRUSTED = ['strcasecmp (C locale) and dgettext: C library']
ASSUMPTIONS = ['a translation is the name itself or a text that is nobody\'s name']
