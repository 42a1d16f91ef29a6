UNITS = []
RC = [('fputs_quoted_case_json', 'ct_quoted'), ('ul_jsonwrt_indent', 'ct_indent')]
def X(n, h, f, **k): UNITS.append(dict(dict(name=n, src='json.c', fn=h, wrap=True, unwind=4, functions=f, no_native=True), **k))
X('string', 'h_string', ['fputs_quoted_case_json'],
  loops_for=[dict(fn='fputs_quoted_case_json', assigns='p, S, cnt, hex', inv='S == 1 && strings == 1 && cnt <= LEN && p == data + cnt', dec='LEN - cnt')],
  fallback=dict(unwind=5, defines=['-DMAXLEN=4'], bounded='texts of up to four bytes'))
X('indent', 'h_indent', ['ul_jsonwrt_indent'],
  loops_for=[dict(fn='ul_jsonwrt_indent', assigns='i, pos, top, depth, pushed, popped', inv='pos == gp && pushed == 0 && popped == 0')],
  fallback=dict(unwind=9, cbmc=['--no-unwinding-assertions'], bounded='up to eight levels'))
X('init', 'h_init', ['ul_jsonwrt_init'])
X('open', 'h_open', ['ul_jsonwrt_open'], replace_calls=RC)
X('close', 'h_close', ['ul_jsonwrt_close'], replace_calls=RC)
X('value', 'h_value', ['ul_jsonwrt_value_s', 'ul_jsonwrt_value_u64', 'ul_jsonwrt_value_boolean', 'ul_jsonwrt_value_null', 'ul_jsonwrt_value_raw', 'ul_jsonwrt_open', 'ul_jsonwrt_close'], replace_calls=RC)
LEVEL = 'proof'
TRUSTED = ['fputc, fputs, fprintf: deliver the characters given (recorded by the harness)', 'toupper/tolower: ASCII letters map to ASCII, other bytes to other bytes']
ASSUMPTIONS = ['bytes above 127 pass through unchanged (UTF-8 text in, UTF-8 text out)', 'the caller names members exactly inside objects and gives valid JSON as raw values', 'texts up to 2^40 bytes, nesting up to 2^20']
