mod c16;
mod c20;
mod desc;
mod generated;
#[path = "../../core/src/refc.rs"]
#[allow(dead_code)]
mod refc;
mod schema;
#[path = "../../lang/src/valid.rs"]
mod valid;
sym::entries!(
    c20_struct1, c20_struct2, c20_enum1, c20_enum2, c20_service_head, c20_service_fn, c20_service_ev, c20_service_kinds,
    c20_builtin, c20_newtype, c20_kinds, c20_graph, c20_graph2, c20_edit0, c20_edit1, c20_permuted,
    c20_records, c20_record_struct, c20_record_enum, c20_record_service, c20_record_builtin, c20_std,
    c20_generated, c20_generated_edit, c20_derived,
    c16_types_a, c16_types_b, c16_types_c, c16_types_d, c16_members, c16_places, c16_places2, c16_values, c16_defs, c16_graph, c16_graph_full, c16_old_new, c16_refs, c16_deep_a, c16_deep_b, c16_deep_c, c16_deep_d
);
fn c20_struct1() { c20::struct1() }
fn c20_struct2() { c20::struct2() }
fn c20_enum1() { c20::enum1() }
fn c20_enum2() { c20::enum2() }
fn c20_service_head() { c20::service_head() }
fn c20_service_fn() { c20::service_fn() }
fn c20_service_ev() { c20::service_ev() }
fn c20_service_kinds() { c20::service_kinds() }
fn c20_builtin() { c20::builtin() }
fn c20_newtype() { c20::newtype() }
fn c20_kinds() { c20::kinds() }
fn c20_graph() { c20::graph(1) }
fn c20_graph2() { c20::graph(2) }
fn c20_edit0() { c20::edited(0) }
fn c20_edit1() { c20::edited(1) }
fn c20_permuted() { c20::permuted() }
fn c20_records() { c20::records() }
fn c20_record_struct() { c20::record_struct() }
fn c20_record_enum() { c20::record_enum() }
fn c20_record_service() { c20::record_service() }
fn c20_record_builtin() { c20::record_builtin() }
fn c20_std() { c20::std_types() }
fn c20_generated() { c20::generated() }
fn c20_generated_edit() { c20::generated_edit() }
fn c20_derived() { c20::derived() }
fn c16_types_a() { c16::types(0, 4, 2, 2, 1, 1) }
fn c16_types_b() { c16::types(1, 4, 2, 2, 1, 1) }
fn c16_types_c() { c16::types(2, 4, 2, 2, 1, 1) }
fn c16_types_d() { c16::types(3, 4, 2, 2, 1, 1) }
fn c16_deep_a() { c16::types(0, 4, 3, 3, 1, 1) }
fn c16_deep_b() { c16::types(1, 4, 3, 3, 1, 1) }
fn c16_deep_c() { c16::types(2, 4, 3, 3, 1, 1) }
fn c16_deep_d() { c16::types(3, 4, 3, 3, 1, 1) }
fn c16_refs() { c16::refs(0, 1) }
fn c16_old_new() { c16::old_new() }
fn c16_members() { valid::members(3).judge() }
fn c16_places() { valid::places(1).judge() }
fn c16_places2() { valid::places(2).judge() }
fn c16_values() { valid::values().judge() }
fn c16_defs() { valid::defs().judge() }
fn c16_graph() { valid::graph(false).judge() }
fn c16_graph_full() { valid::graph(true).judge() }
