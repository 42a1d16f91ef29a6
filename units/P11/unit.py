UNITS = []
def W(fn, h, *funs, **k):
    UNITS.append(dict(dict(name=fn, src='attr.c', contracts=['attr.ct'], fn=h, functions=[fn] + list(funs), wrap=True, unwind=80), **k))
W('gpt_partition_set_flag', 'h_set_flag', 'gpt_find_flag_uuid_mapping', 'is_skip_guid')
W('gpt_partition_get_flag', 'h_get_flag')
W('gpt_partition_is_flag_available', 'h_avail')
W('gpt_partition_set_system', 'h_set_system', 'is_skip_guid')
W('gpt_partition_set_type_uuid', 'h_set_uuid')
W('gpt_partition_get_type_uuid', 'h_get_type')
W('gpt_partition_get_uuid', 'h_get_uuid')
LEVEL = 'proof'
TRUSTED = []
ASSUMPTIONS = []
def E(name, h, *funs, **k):
    UNITS.append(dict(dict(name=name, src='entry.c', contracts=['entry.ct'], fn=h, functions=list(funs) or [name], wrap=True, unwind=130, defines=['-DVT_NO_ENV_EXC']), **k))
E('_parse_part_entry', 'h_parse')
E('_partition_generate_part_entry', 'h_gen')
E('entry_round_trip', 'h_round', '_partition_generate_part_entry', '_parse_part_entry')
E('gpt_partition_new', 'h_new')
E('gpt_partition_duplicate', 'h_pdup', **dict(bounded='cached name of at most 40 ASCII characters'))
N = dict(bounded='ASCII names of at most 40 characters')
E('gpt_partition_set_name', 'h_set_name', **N)
E('gpt_partition_get_name', 'h_get_name', **N)
E('name_round_trip', 'h_name_round', 'gpt_partition_set_name', '_partition_generate_part_entry', '_parse_part_entry', 'gpt_partition_get_name', **N)
TRUSTED = ['iconv: ASCII to and from UCS-2LE within the room given', '_ped_partition_alloc, ped_partition_new: fresh partition or NULL', 'uuid_generate: 16 arbitrary bytes', 'xstrdup: copy of the string']
ASSUMPTIONS = ['partition names are ASCII in these units', 'names set are at most 40 characters long']
