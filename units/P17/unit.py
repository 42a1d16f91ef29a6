UNITS = []
def X(n, h, f, **k): UNITS.append(dict(dict(name=n, src='units.c', fn=h, wrap=True, unwind=12, functions=f, no_native=True), **k))
X('unit_size', 'h_size', ['ped_unit_get_size', 'ped_unit_set_default', 'ped_unit_get_default'])
X('suffix', 'h_suffix', ['parse_unit_suffix'])
X('text', 'h_text', ['is_chs', 'find_suffix', 'strip_string', 'remove_punct'], bounded='strings of up to seven ASCII characters')
X('punct', 'h_punct', ['remove_punct'], bounded='strings of up to seven ASCII characters')
X('range', 'h_radius', ['geometry_from_centre_radius', 'clip'])
X('parse_chs', 'h_chs', ['parse_chs'])
RC = [('is_chs', 'ct_is_chs'), ('parse_chs', 'ct_parse_chs'), ('strip_string', 'ct_strip'), ('find_suffix', 'ct_find'), ('parse_unit_suffix', 'ct_suffix'), ('ped_unit_get_size', 'ct_size'), ('geometry_from_centre_radius', 'ct_radius')]
X('parse', 'h_parse', ['ped_unit_parse_custom'], replace_calls=RC, smt=['--cvc5', '--fpa'])
X('half_unit', 'h_unit_radius', ['ped_unit_parse_custom'], replace_calls=RC)
X('format', 'h_format', ['ped_unit_format_custom', 'ped_unit_format_custom_byte'], bounded='sector size 512, geometry 255/63, 2^17 sectors')
LEVEL = 'proof'
TRUSTED = ['sscanf, snprintf: C library (numbers read and printed exactly as asked)', 'ped_geometry_new: property P07']
ASSUMPTIONS = ['devices of up to 2^50 sectors, sector sizes 512 to 4096', 'the printed decimals of kB, MB, % and the automatic unit are not decided', 'text handling: strings of up to seven ASCII characters']
