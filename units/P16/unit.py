UNITS = []
def X(n, h, f, **k): UNITS.append(dict(dict(name=n, src='exc.c', fn=h, wrap=True, unwind=20, functions=f), **k))
X('throw', 'h_throw', ['ped_exception_throw', 'do_throw', 'default_handler', 'ped_exception_catch', 'ped_exception_set_handler', 'ped_exception_get_handler'])
X('rethrow', 'h_rethrow', ['ped_exception_rethrow', 'do_throw', 'default_handler', 'ped_exception_catch'])
X('catch_fetch_leave', 'h_ops', ['ped_exception_catch', 'ped_exception_fetch_all', 'ped_exception_leave_all'])
X('names', 'h_names', ['ped_exception_get_option_string', 'ped_exception_get_type_string', 'ped_log2'])
def U(n, h, f, **k): UNITS.append(dict(dict(name=n, src='ui.c', fn=h, wrap=True, unwind=20, functions=f), **k))
U('option_get_next', 'h_next', ['option_get_next'])
U('exception_handler', 'h_handler', ['exception_handler'], replace_calls=[('_print_exception_text', 'ct_text'), ('command_line_get_ex_opt', 'ct_get')], no_native=True)
U('command_line_get_ex_opt', 'h_get', ['command_line_get_ex_opt', 'option_get_next'], unwind=9, repo=['libparted/exception.c'], no_native=True,
  replace_calls=[('str_list_append_unique', 'ct_app'), ('str_list_destroy', 'ct_destroy'), ('command_line_flush', 'ct_flush'), ('command_line_get_word', 'ct_word')])
LEVEL = 'proof'
TRUSTED = ['an application handler answers with one choice or unhandled (its documented contract; proved for the handlers of the library and of the parted program)', 'vsnprintf, fprintf, malloc: C library', 'command_line_get_word: a word of the given list, or none', 'string lists of the parted program']
ASSUMPTIONS = ['message texts up to 1025 characters and not NULL', 'a rethrow follows a throw', 'a handler does not throw again']
