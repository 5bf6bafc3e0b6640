mod c01;
mod c07;
mod c08;
mod c13;
mod c14;
mod refc;
sym::entries!(
    c01_leaves, c01_flats, c01_one, c01_two, c01_three, c01_deep, c01_chain, c01_edge, c01_absurd, c01_large, c07_large, c08_large, c13_large,
    c07_any4, c07_any6, c07_any7, c07_unknown5, c07_mutated, c07_deep, c07_huge,
    c08_roundtrip, c08_any9, c08_any12, c08_plain, c08_values, c08_headers, c08_foreign,
    c13_versions, c13_flats, c13_one, c13_two, c13_deep, c13_any5, c13_any6, c13_any7, c13_messages,
    c14_packets3, c14_packets4, c14_packets5, c14_big, c14_big3, c14_contents, c14_garbage, c14_receive, c14_receive3, c14_send, c14_send_err, c14_send_big, c14_buffered
);
fn c01_leaves() { c01::leaves() }
fn c01_flats() { c01::flats(3, 2) }
fn c01_one() { c01::one(2, 1) }
fn c01_two() { c01::two() }
fn c01_three() { c01::three() }
fn c01_deep() { c01::deep(4) }
fn c01_chain() { c01::chain() }
fn c01_edge() { c01::edge() }
fn c01_absurd() { c01::absurd() }
fn c01_large() { c01::big() }
fn c07_large() { c07::large() }
fn c08_large() { c08::large() }
fn c13_large() { c13::large() }
fn c07_any4() { c07::any(4) }
fn c07_any6() { c07::any(6) }
fn c07_any7() { c07::any(7) }
fn c07_unknown5() { c07::unknown(5) }
fn c07_mutated() { c07::mutated() }
fn c07_deep() { c07::deep() }
fn c07_huge() { c07::huge() }
fn c08_roundtrip() { c08::roundtrip() }
fn c08_any9() { c08::any(0, 9) }
fn c08_any12() { c08::any(10, 12) }
fn c08_plain() { c08::bodies(false, 84) }
fn c08_values() { c08::bodies(true, 40) }
fn c08_headers() { c08::headers() }
fn c08_foreign() { c08::foreign() }
fn c13_versions() { c13::all_versions() }
fn c13_flats() { c13::flats() }
fn c13_one() { c13::one(1) }
fn c13_two() { c13::two() }
fn c13_deep() { c13::deep() }
fn c13_any5() { c13::any(5) }
fn c13_any6() { c13::any(6) }
fn c13_any7() { c13::any(7) }
fn c13_messages() { c13::messages() }
fn c14_packets3() { c14::packets(3, 3, &[5, 6, 9]) }
fn c14_packets4() { c14::packets(4, 2, &[5, 9]) }
fn c14_packets5() { c14::packets(5, 3, &[5, 6]) }
fn c14_big() { c14::packets(3, 2, &[5, 70_000]) }
fn c14_big3() { c14::packets(3, 3, &[5, 300, 70_000]) }
fn c14_contents() { c14::contents() }
fn c14_garbage() { c14::garbage(9) }
fn c14_receive() { c14::receive(2, 3) }
fn c14_receive3() { c14::receive(3, 2) }
fn c14_send() { c14::send(2, 5, false, 3) }
fn c14_send_err() { c14::send(2, 4, true, 3) }
fn c14_send_big() { c14::send(3, 3, false, 4) }
fn c14_buffered() { c14::buffered(6) }
