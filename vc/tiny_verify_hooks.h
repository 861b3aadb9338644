/* TINY_VERIFY_LOOP(id, variables...) is the first statement of an annotated loop's body in /repo.
 * A harness cuts the loop by defining VC_LOOP_<id>(variables...) before including the sources. */
#define TINY_VERIFY_LOOP(id, ...) VC_LOOP_##id(__VA_ARGS__)
#ifndef VC_LOOP_arena_destroy
#define VC_LOOP_arena_destroy(...)
#endif
#ifndef VC_LOOP_array_resize
#define VC_LOOP_array_resize(...)
#endif
#ifndef VC_LOOP_dict_set
#define VC_LOOP_dict_set(...)
#endif
#ifndef VC_LOOP_dict_get
#define VC_LOOP_dict_get(...)
#endif
#ifndef VC_LOOP_dict_remove
#define VC_LOOP_dict_remove(...)
#endif
#ifndef VC_LOOP_dict_clear
#define VC_LOOP_dict_clear(...)
#endif
#ifndef VC_LOOP_dict_grow
#define VC_LOOP_dict_grow(...)
#endif
#ifndef VC_LOOP_sweep
#define VC_LOOP_sweep(...)
#endif
#ifndef VC_LOOP_mark_globals
#define VC_LOOP_mark_globals(...)
#endif
#ifndef VC_LOOP_destroy_objects
#define VC_LOOP_destroy_objects(...)
#endif
#ifndef VC_LOOP_mark_array
#define VC_LOOP_mark_array(...)
#endif
#ifndef VC_LOOP_mark_dict
#define VC_LOOP_mark_dict(...)
#endif
#ifndef VC_LOOP_mark_fields
#define VC_LOOP_mark_fields(...)
#endif
#ifndef VC_LOOP_register_string
#define VC_LOOP_register_string(...)
#endif
#ifndef VC_LOOP_close_scope
#define VC_LOOP_close_scope(...)
#endif
#ifndef VC_LOOP_ref_locals
#define VC_LOOP_ref_locals(...)
#endif
#ifndef VC_LOOP_ref_args
#define VC_LOOP_ref_args(...)
#endif
#ifndef VC_LOOP_ref_globals
#define VC_LOOP_ref_globals(...)
#endif
#ifndef VC_LOOP_declare_arg
#define VC_LOOP_declare_arg(...)
#endif
#ifndef VC_LOOP_declare_local
#define VC_LOOP_declare_local(...)
#endif
#ifndef VC_LOOP_ref_function
#define VC_LOOP_ref_function(...)
#endif
#ifndef VC_LOOP_struct_tag
#define VC_LOOP_struct_tag(...)
#endif
#ifndef VC_LOOP_tag_from_name
#define VC_LOOP_tag_from_name(...)
#endif
#ifndef VC_LOOP_nullable
#define VC_LOOP_nullable(...)
#endif
#ifndef VC_LOOP_field_tag
#define VC_LOOP_field_tag(...)
#endif
#ifndef VC_LOOP_parse_call
#define VC_LOOP_parse_call(...)
#endif
#ifndef VC_LOOP_parse_suffix
#define VC_LOOP_parse_suffix(...)
#endif
#ifndef VC_LOOP_parse_names
#define VC_LOOP_parse_names(...)
#endif
#ifndef VC_LOOP_parse_struct
#define VC_LOOP_parse_struct(...)
#endif
#ifndef VC_LOOP_parse_declare
#define VC_LOOP_parse_declare(...)
#endif
#ifndef VC_LOOP_parse_params
#define VC_LOOP_parse_params(...)
#endif
#ifndef VC_LOOP_parse_program
#define VC_LOOP_parse_program(...)
#endif
#ifndef VC_LOOP_parse_use
#define VC_LOOP_parse_use(...)
#endif
#ifndef VC_LOOP_disasm_name
#define VC_LOOP_disasm_name(...)
#endif
#ifndef VC_LOOP_parse_cast_dot
#define VC_LOOP_parse_cast_dot(...)
#endif
#ifndef VC_LOOP_parse_new
#define VC_LOOP_parse_new(...)
#endif
#ifndef VC_LOOP_parse_block
#define VC_LOOP_parse_block(...)
#endif
#ifndef VC_LOOP_parse_bin
#define VC_LOOP_parse_bin(...)
#endif
#ifndef VC_LOOP_file_line
#define VC_LOOP_file_line(...)
#endif
#ifndef VC_LOOP_friendly_line
#define VC_LOOP_friendly_line(...)
#endif
#ifndef VC_LOOP_friendly_char
#define VC_LOOP_friendly_char(...)
#endif
#ifndef VC_LOOP_line_number
#define VC_LOOP_line_number(...)
#endif
#ifndef VC_LOOP_format_lines
#define VC_LOOP_format_lines(...)
#endif
#ifndef VC_LOOP_format_chars
#define VC_LOOP_format_chars(...)
#endif
#ifndef VC_LOOP_lex_space
#define VC_LOOP_lex_space(...)
#endif
#ifndef VC_LOOP_lex_comment
#define VC_LOOP_lex_comment(...)
#endif
#ifndef VC_LOOP_lex_ident
#define VC_LOOP_lex_ident(...)
#endif
#ifndef VC_LOOP_lex_number
#define VC_LOOP_lex_number(...)
#endif
#ifndef VC_LOOP_lex_string
#define VC_LOOP_lex_string(...)
#endif
#ifndef VC_LOOP_resolve_args
#define VC_LOOP_resolve_args(...)
#endif
#ifndef VC_LOOP_resolve_block
#define VC_LOOP_resolve_block(...)
#endif
#ifndef VC_LOOP_hash_bytes
#define VC_LOOP_hash_bytes(...)
#endif
#ifndef VC_LOOP_resolve_ctor
#define VC_LOOP_resolve_ctor(...)
#endif
#ifndef VC_LOOP_resolve_ctor_prev
#define VC_LOOP_resolve_ctor_prev(...)
#endif
#ifndef VC_LOOP_resolve_ctor_field
#define VC_LOOP_resolve_ctor_field(...)
#endif
#ifndef VC_LOOP_strcat_length
#define VC_LOOP_strcat_length(...)
#endif
#ifndef VC_LOOP_strcat_copy
#define VC_LOOP_strcat_copy(...)
#endif
#ifndef VC_LOOP_substr
#define VC_LOOP_substr(...)
#endif
#ifndef VC_LOOP_dict_create
#define VC_LOOP_dict_create(...)
#endif
#ifndef VC_LOOP_dict_keys
#define VC_LOOP_dict_keys(...)
#endif
#ifndef VC_LOOP_dict_values
#define VC_LOOP_dict_values(...)
#endif
