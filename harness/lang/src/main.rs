mod c17;
mod c18;
mod corpus;
mod gram;
#[allow(dead_code)]
mod valid;
sym::entries!(
    c17_bytes2, c17_bytes3, c17_soup1, c17_soup2, c17_soup2_all, c17_soup3, c17_mut_a, c17_mut_b, c17_mut_s, c17_deep, c17_mut_c, c17_mut_d, c17_full_a, c17_full_b, c17_full_c, c17_full_d, c17_corpus, c17_corpus_a, c17_corpus_b, c17_corpus_c, c17_docs, c17_docs_deep, c17_docs_soup2,
    c17_docs_soup3, c17_imports, c17_snippets1, c17_snippets2, c17_snippets2_all, c17_names, c17_members, c17_places, c17_members3, c17_values, c17_defs, c17_graph, c17_graph_full,
    c18_writer, c18_head, c18_defs1, c18_defs2, c18_defs3, c18_bodies, c18_function, c18_function_full, c18_event, c18_items0, c18_items2, c18_items2_full, c18_types1, c18_types2, c18_texts1, c18_texts2,
    c18_lit0, c18_lit1, c18_lit2, c18_lit3, c18_lit4, c18_lit5, c18_layouts, c18_layouts_full, c18_mut_a, c18_mut_b, c18_mut_c, c18_full_a, c18_full_b, c18_full_c, c18_corpus, c18_corpus_a
);
fn c17_bytes2() { c17::bytes(2) }
fn c17_bytes3() { c17::bytes(3) }
fn c17_soup1() { c17::soup(1, 8) }
fn c17_soup2() { c17::soup(2, 2) }
fn c17_soup2_all() { c17::soup(2, 8) }
fn c17_soup3() { c17::soup(3, 3) }
fn c17_mut_a() { c17::mutate(false, 0, 2) }
fn c17_full_a() { c17::mutate(true, 0, 2) }
fn c17_mut_b() { c17::mutate(false, 10, 12) }
fn c17_mut_s() { c17::mutate(false, 2, 1) }
fn c17_deep() { c17::deep() }
fn c17_full_b() { c17::mutate(true, 2, 1) }
fn c17_mut_c() { c17::mutate(false, 3, 1) }
fn c17_full_c() { c17::mutate(true, 3, 1) }
fn c17_mut_d() { c17::mutate(false, 4, 6) }
fn c17_full_d() { c17::mutate(true, 4, 6) }
fn c17_corpus() { c17::corpus(0, 999, 0, 0, false) }
fn c17_corpus_a() { c17::corpus(0, 999, 0, 1, false) }
fn c17_corpus_b() { c17::corpus(0, 999, 2, 1, false) }
fn c17_corpus_c() { c17::corpus(0, 999, 4, 6, false) }
fn c17_docs() { c17::docs(false) }
fn c17_docs_deep() { c17::docs(true) }
fn c17_docs_soup2() { c17::docs_soup(2) }
fn c17_docs_soup3() { c17::docs_soup(3) }
fn c17_imports() { c17::imports() }
fn c17_snippets1() { c17::snippets(1, 0) }
fn c17_snippets2() { c17::snippets(2, 16) }
fn c17_snippets2_all() { c17::snippets(2, 66) }
fn c17_members() { c17::ruled(valid::members(2)) }
fn c17_members3() { c17::ruled(valid::members(3)) }
fn c17_places() { c17::ruled(valid::places(1)) }
fn c17_values() { c17::ruled(valid::values()) }
fn c17_defs() { c17::ruled(valid::defs()) }
fn c17_graph() { c17::ruled(valid::graph(false)) }
fn c17_graph_full() { c17::ruled(valid::graph(true)) }
fn c17_names() { c17::names() }
fn c18_writer() { c18::writer() }
fn c18_head() { c18::head() }
fn c18_defs1() { c18::defs(1) }
fn c18_defs2() { c18::defs(2) }
fn c18_defs3() { c18::defs(3) }
fn c18_bodies() { c18::bodies() }
fn c18_function() { c18::function(false) }
fn c18_function_full() { c18::function(true) }
fn c18_event() { c18::event() }
fn c18_items0() { c18::items(0, false) }
fn c18_items2() { c18::items(2, false) }
fn c18_items2_full() { c18::items(2, true) }
fn c18_types1() { c18::types(1) }
fn c18_types2() { c18::types(2) }
fn c18_texts1() { c18::texts(1) }
fn c18_texts2() { c18::texts(2) }
fn c18_lit0() { c18::literals(0) }
fn c18_lit1() { c18::literals(1) }
fn c18_lit2() { c18::literals(2) }
fn c18_lit3() { c18::literals(3) }
fn c18_lit4() { c18::literals(4) }
fn c18_lit5() { c18::literals(5) }
fn c18_layouts() { c18::layouts(false) }
fn c18_layouts_full() { c18::layouts(true) }
fn c18_mut_a() { c17::mutate_fmt(false, 0, 1) }
fn c18_full_a() { c17::mutate_fmt(true, 0, 1) }
fn c18_mut_b() { c17::mutate_fmt(false, 2, 1) }
fn c18_full_b() { c17::mutate_fmt(true, 2, 1) }
fn c18_mut_c() { c17::mutate_fmt(false, 4, 6) }
fn c18_full_c() { c17::mutate_fmt(true, 4, 6) }
fn c18_corpus() { c17::corpus(0, 999, 0, 0, true) }
fn c18_corpus_a() { c17::corpus(0, 999, 0, 1, true) }
