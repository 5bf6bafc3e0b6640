//! Copies of the repository's schemas; written by mk.py.
pub const CORPUS: &[(&str, &str)] = &[
    ("example2", include_str!("../schemas/macros-schemas-example2.aldrin")),
    ("single_backtick_in_link", include_str!("../schemas/parser-test-issues-single_backtick_in_link.aldrin")),
    ("comrak_non_char_boundary2", include_str!("../schemas/parser-test-issues-comrak_non_char_boundary2.aldrin")),
    ("comrak_non_char_boundary1", include_str!("../schemas/parser-test-issues-comrak_non_char_boundary1.aldrin")),
    ("sender_receiver_imports_1", include_str!("../schemas/parser-test-ui-sender_receiver_imports_1.aldrin")),
    ("sender_receiver_imports_2", include_str!("../schemas/parser-test-ui-sender_receiver_imports_2.aldrin")),
    ("error_empty_enum", include_str!("../schemas/parser-test-ui-error_empty_enum.aldrin")),
    ("extern", include_str!("../schemas/codegen-test-extern.aldrin")),
    ("example5", include_str!("../schemas/macros-schemas-example5.aldrin")),
    ("str", include_str!("../schemas/parser-test-ui-str.aldrin")),
    ("carriage_return_in_link1", include_str!("../schemas/parser-test-issues-carriage_return_in_link1.aldrin")),
    ("type_not_found_import", include_str!("../schemas/parser-test-ui-type_not_found_import.aldrin")),
    ("non_camel_case_newtype", include_str!("../schemas/parser-test-ui-non_camel_case_newtype.aldrin")),
    ("const_int_not_found_import", include_str!("../schemas/parser-test-ui-const_int_not_found_import.aldrin")),
    ("carriage_return_in_link2", include_str!("../schemas/parser-test-issues-carriage_return_in_link2.aldrin")),
    ("example4", include_str!("../schemas/macros-schemas-example4.aldrin")),
    ("expected_const_int_found_type_import", include_str!("../schemas/parser-test-ui-expected_const_int_found_type_import.aldrin")),
    ("invalid_escape_code", include_str!("../schemas/parser-test-ui-invalid_escape_code.aldrin")),
    ("whitespace_after_required", include_str!("../schemas/parser-test-issues-whitespace_after_required.aldrin")),
    ("invalid_array_len_import", include_str!("../schemas/parser-test-ui-invalid_array_len_import.aldrin")),
    ("recursive2_c", include_str!("../schemas/parser-test-ui-recursive2_c.aldrin")),
    ("as", include_str!("../schemas/parser-test-ui-as.aldrin")),
    ("expected_const_int_found_string_import", include_str!("../schemas/parser-test-ui-expected_const_int_found_string_import.aldrin")),
    ("reserved_ident_import", include_str!("../schemas/parser-test-ui-reserved_ident_import.aldrin")),
    ("expected_type_found_const_import", include_str!("../schemas/parser-test-ui-expected_type_found_const_import.aldrin")),
    ("example3", include_str!("../schemas/macros-schemas-example3.aldrin")),
    ("recursive2_b", include_str!("../schemas/parser-test-ui-recursive2_b.aldrin")),
    ("example1", include_str!("../schemas/macros-schemas-example1.aldrin")),
    ("recursive2_a", include_str!("../schemas/parser-test-ui-recursive2_a.aldrin")),
    ("duplicate_id", include_str!("../schemas/parser-schemas-duplicate_id.aldrin")),
    ("recursive1", include_str!("../schemas/parser-test-ui-recursive1.aldrin")),
    ("introspection", include_str!("../schemas/codegen-test-introspection.aldrin")),
    ("expected_const_int_found_uuid_import", include_str!("../schemas/parser-test-ui-expected_const_int_found_uuid_import.aldrin")),
    ("did_you_mean_builtin", include_str!("../schemas/parser-test-ui-did_you_mean_builtin.aldrin")),
    ("old_new", include_str!("../schemas/codegen-test-old_new.aldrin")),
    ("newline_cr", include_str!("../schemas/parser-test-issues-newline_cr.aldrin")),
    ("generic_struct", include_str!("../schemas/codegen-test-generic_struct.aldrin")),
    ("expected_const_int_found_service_import", include_str!("../schemas/parser-test-ui-expected_const_int_found_service_import.aldrin")),
    ("reserved_ident", include_str!("../schemas/parser-test-ui-reserved_ident.aldrin")),
    ("subscribe_all", include_str!("../schemas/codegen-test-subscribe_all.aldrin")),
    ("invalid_event_id", include_str!("../schemas/parser-test-ui-invalid_event_id.aldrin")),
    ("type_not_found", include_str!("../schemas/parser-test-ui-type_not_found.aldrin")),
    ("invalid_function_id", include_str!("../schemas/parser-test-ui-invalid_function_id.aldrin")),
    ("schema_link_without_import1", include_str!("../schemas/parser-test-ui-schema_link_without_import1.aldrin")),
    ("schema_link_without_import2", include_str!("../schemas/parser-test-ui-schema_link_without_import2.aldrin")),
    ("schema_link_without_import3", include_str!("../schemas/parser-test-ui-schema_link_without_import3.aldrin")),
    ("test1", include_str!("../schemas/codegen-test-test1.aldrin")),
    ("before_derive_compat", include_str!("../schemas/codegen-test-before_derive_compat.aldrin")),
    ("expected_type_found_service_import", include_str!("../schemas/parser-test-ui-expected_type_found_service_import.aldrin")),
    ("enum_fallback", include_str!("../schemas/codegen-test-enum_fallback.aldrin")),
    ("newtype", include_str!("../schemas/codegen-test-newtype.aldrin")),
    ("did_you_mean_key_type_import", include_str!("../schemas/parser-test-ui-did_you_mean_key_type_import.aldrin")),
    ("const_int_not_found", include_str!("../schemas/parser-test-ui-const_int_not_found.aldrin")),
    ("invalid_key_type_import", include_str!("../schemas/parser-test-ui-invalid_key_type_import.aldrin")),
    ("expected_type_found_const", include_str!("../schemas/parser-test-ui-expected_type_found_const.aldrin")),
    ("duplicate_enum_variant", include_str!("../schemas/parser-test-ui-duplicate_enum_variant.aldrin")),
    ("expected_const_int_found_type", include_str!("../schemas/parser-test-ui-expected_const_int_found_type.aldrin")),
    ("non_camel_case_enum_variant", include_str!("../schemas/parser-test-ui-non_camel_case_enum_variant.aldrin")),
    ("non_snake_case_struct_field", include_str!("../schemas/parser-test-ui-non_snake_case_struct_field.aldrin")),
    ("constants", include_str!("../schemas/codegen-test-constants.aldrin")),
    ("invalid_array_len", include_str!("../schemas/parser-test-ui-invalid_array_len.aldrin")),
    ("expected_const_int_found_string", include_str!("../schemas/parser-test-ui-expected_const_int_found_string.aldrin")),
    ("duplicate_struct_field", include_str!("../schemas/parser-test-ui-duplicate_struct_field.aldrin")),
    ("expected_const_int_found_uuid", include_str!("../schemas/parser-test-ui-expected_const_int_found_uuid.aldrin")),
    ("sender_receiver_imports", include_str!("../schemas/parser-test-ui-sender_receiver_imports.aldrin")),
    ("duplicate_service_item", include_str!("../schemas/parser-test-ui-duplicate_service_item.aldrin")),
    ("expected_const_int_found_service", include_str!("../schemas/parser-test-ui-expected_const_int_found_service.aldrin")),
    ("raw_identifiers", include_str!("../schemas/codegen-test-raw_identifiers.aldrin")),
    ("unit", include_str!("../schemas/codegen-test-unit.aldrin")),
    ("expected_type_found_service", include_str!("../schemas/parser-test-ui-expected_type_found_service.aldrin")),
    ("calculator", include_str!("../schemas/test-examples-calculator.aldrin")),
    ("downloader", include_str!("../schemas/examples-downloader-src-downloader.aldrin")),
    ("result", include_str!("../schemas/codegen-test-result.aldrin")),
    ("did_you_mean_key_type", include_str!("../schemas/parser-test-ui-did_you_mean_key_type.aldrin")),
    ("recursive_types_used", include_str!("../schemas/parser-test-issues-recursive_types_used.aldrin")),
    ("options", include_str!("../schemas/codegen-test-options.aldrin")),
    ("bookmarks_v1", include_str!("../schemas/examples-bookmarks-src-bookmarks_v1.aldrin")),
    ("media_player", include_str!("../schemas/examples-media-player-src-media_player.aldrin")),
    ("echo", include_str!("../schemas/examples-echo-src-echo.aldrin")),
    ("invalid_key_type", include_str!("../schemas/parser-test-ui-invalid_key_type.aldrin")),
    ("bookmarks_v2", include_str!("../schemas/examples-bookmarks-src-bookmarks_v2.aldrin")),
];
