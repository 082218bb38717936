//! What some functions of alloc do, written so that the analyser need not look into them.
pub fn string_from_iter<I: IntoIterator<Item = char>>(i: I) -> String { let mut s = String::new(); for c in i { s.push(c); } s }
pub fn string_extend<I: IntoIterator<Item = char>>(s: &mut String, i: I) { for c in i { s.push(c); } }
