//! A structure that cannot be read is reported by the operation that meets it.
use crate::{c11::key_name, c12::value_name, sa, spec::*};
use nt_hive::*;
fn failed<T>(r: &Option<Result<T>>) -> bool { match r { Some(Err(_)) => true, _ => false } }
pub fn root() {
    let b = sa::bytes();
    let Ok(h) = Hive::without_validation(b) else { return };
    if nk(b, u32le(b, 36)).is_none() { sa::check(h.root_key_node().is_err(), "an unreadable root key is an error") }
}
pub fn key_names() {
    key!(b, h, n, c, l);
    if u16le(b, c + 72) as usize > l - 76 { sa::check(n.name().is_err(), "an unreadable key name is an error") }
}
pub fn class_name() {
    key!(b, h, n, c, l);
    let off = u32le(b, c + 48);
    if off == NONE { return }
    let len = u16le(b, c + 74) as usize;
    let good = match cell(b, off) { Some((_, m)) => len <= m, None => false };
    if !good { sa::check(failed(&n.class_name()), "an unreadable class name is an error") }
}
pub fn subkeys_list() {
    key!(b, h, n, c, l);
    let off = u32le(b, c + 28);
    if off == NONE || leaf(b, off).is_some() || index_root(b, off).is_some() { return }
    sa::check(failed(&n.subkeys()), "an unreadable subkeys list is an error");
}
pub fn lookup_list() {
    key!(b, h, n, c, l);
    let off = u32le(b, c + 28);
    if off == NONE || leaf(b, off).is_some() || index_root(b, off).is_some() { return }
    sa::check(failed(&n.subkey(sa::text())), "a lookup in an unreadable subkeys list is an error");
}
pub fn values_lists() {
    key!(b, h, n, c, l);
    if u32le(b, c + 40) == NONE || values_list(b, c).is_some() { return }
    sa::check(failed(&n.values()), "an unreadable values list is an error");
}
pub fn value_lookup_list() {
    key!(b, h, n, c, l);
    if u32le(b, c + 40) == NONE || values_list(b, c).is_some() { return }
    sa::check(failed(&n.value(sa::text())), "a lookup in an unreadable values list is an error");
}
pub fn leaf_entries() {
    key!(b, h, n, c, l);
    let Some((first, e, k)) = leaf(b, u32le(b, c + 28)) else { return };
    let Some(Ok(mut it)) = n.subkeys() else { return };
    let mut i = 0;
    loop {
        let r = it.next();
        if i >= k { return }
        if nk(b, u32le(b, first + i * e)).is_none() { sa::check(failed(&r), "an unreadable subkey is an error of that step") }
        i += 1;
    }
}
pub fn index_root_entries() {
    key!(b, h, n, c, l);
    let Some((first, k)) = index_root(b, u32le(b, c + 28)) else { return };
    let Some(Ok(mut it)) = n.subkeys() else { return };
    walk(b, &mut it, first, k, |r, e| match e {
        None => sa::check(failed(r), "an unreadable leaf below an index root is an error of that step"),
        Some(off) => if nk(b, off).is_none() { sa::check(failed(r), "an unreadable subkey below an index root is an error of that step") },
    });
}
pub fn value_entries() {
    key!(b, h, n, c, l);
    let Some((first, k)) = values_list(b, c) else { return };
    let Some(Ok(mut it)) = n.values() else { return };
    let mut i = 0;
    loop {
        let r = it.next();
        if i >= k { return }
        if vk(b, u32le(b, first + i * 4)).is_none() { sa::check(failed(&r), "an unreadable value is an error of that step") }
        i += 1;
    }
}
pub fn value_names() {
    val!(b, h, v, c, l);
    if u16le(b, c + 2) as usize > l - 20 { sa::check(v.name().is_err(), "an unreadable value name is an error") }
}
pub fn data() {
    val!(b, h, v, c, l);
    if let Stored::Bad = stored(b, c) { sa::check(v.data().is_err(), "unreadable data is an error") }
}
pub fn data_type() { val!(b, h, v, c, l); if u32le(b, c + 12) > 11 { sa::check(v.data_type().is_err(), "an unknown data type is an error") } }
pub fn dword() {
    val!(b, h, v, c, l);
    let bad = match stored(b, c) { Stored::Bad => true, _ => u32le(b, c + 12) > 11 };
    if bad { sa::check(v.dword_data().is_err(), "dword_data reports unreadable data and types") }
}
pub fn qword() {
    val!(b, h, v, c, l);
    let bad = match stored(b, c) { Stored::Bad => true, _ => u32le(b, c + 12) > 11 };
    if bad { sa::check(v.qword_data().is_err(), "qword_data reports unreadable data and types") }
}
pub fn string() {
    val!(b, h, v, c, l);
    let bad = match stored(b, c) { Stored::Bad => true, _ => u32le(b, c + 12) > 11 };
    if bad { sa::check(v.string_data().is_err(), "string_data reports unreadable data and types") }
}
pub fn multi() {
    val!(b, h, v, c, l);
    let bad = match stored(b, c) { Stored::Bad => true, _ => u32le(b, c + 12) > 11 };
    if bad { sa::check(v.multi_string_data().is_err(), "multi_string_data reports unreadable data and types") }
}
pub fn segments() {
    val!(b, h, v, c, l);
    let Stored::Segments(first, mut left) = stored(b, c) else { return };
    let Ok(KeyValueData::Big(mut it)) = v.data() else { return };
    let mut i = 0;
    loop {
        let r = it.next();
        if left == 0 { return }
        let n = if left < 16344 { left } else { 16344 };
        let good = match cell(b, u32le(b, first + 4 * i)) { Some((_, l)) => l >= n, None => false };
        if !good { sa::check(failed(&r), "an unreadable segment is an error of that step") }
        left -= n;
        i += 1;
    }
}
// ghost: 0 the hive, 1 the next entry of the segment list, 2 was an unreadable segment met?, 3 bytes left
fn segment_load(q: *const u8, n: usize) {
    let b = sa::gget::<B>(0);
    let Some(o) = sa::off_in(q, b) else { return };
    let left = sa::gget::<usize>(3);
    if !sa::known(n == 4) || !sa::known(o == sa::gget::<usize>(1)) || !sa::known(left > 0) { return }
    let n = if left < 16344 { left } else { 16344 };
    let good = match cell(b, u32le(b, o)) { Some((_, l)) => l >= n, None => false };
    if !good { sa::gset(2, true) }
    sa::gset(1, o + 4);
    sa::gset(3, left - n);
}
pub fn vec() {
    val!(b, h, v, c, l);
    let Stored::Segments(first, n) = stored(b, c) else { return };
    let Ok(d) = v.data() else { return };
    sa::gset(0, b); sa::gset(1, first); sa::gset(2, false); sa::gset(3, n);
    sa::hook(5, segment_load);
    let r = d.into_vec();
    sa::unhook(5);
    if sa::gget::<bool>(2) { sa::check(r.is_err(), "an unreadable segment is an error of into_vec") }
}
pub fn long_string() {
    sa::join(32);
    val!(b, h, v, c, l);
    let Stored::Segments(first, n) = stored(b, c) else { return };
    if u32le(b, c + 12) != 1 { return }
    sa::gset(0, b); sa::gset(1, first); sa::gset(2, false); sa::gset(3, n);
    sa::hook(5, segment_load);
    let r = v.string_data();
    sa::unhook(5);
    if sa::gget::<bool>(2) { sa::check(r.is_err(), "an unreadable segment is an error of string_data") }
}
pub fn multi_segments() {
    sa::join(32);
    val!(b, h, v, c, l);
    let Stored::Segments(first, n) = stored(b, c) else { return };
    let Ok(mut it) = v.multi_string_data() else { return };
    sa::gset(0, b); sa::gset(1, first); sa::gset(2, false); sa::gset(3, n);
    sa::hook(5, segment_load);
    loop {
        if sa::any() { return }
        let r = it.next();
        if sa::gget::<bool>(2) { sa::check(failed(&r), "an unreadable segment is an error of that step of multi_string_data"); return }
    }
}
// ghost: 0 the hive, 1 the leaf at hand (first entry, entry size, count), 2 was something unreadable met?, 5 the index root (first entry, count)
fn load(q: *const u8, n: usize) {
    let b = sa::gget::<B>(0);
    let Some(o) = sa::off_in(q, b) else { return };
    if !sa::known(n >= 4) || !sa::known(n <= 8) { return }
    let (first, roots) = sa::gget::<(usize, usize)>(5);
    if sa::known(roots > 0) && sa::known(o >= first) && sa::known(o < first + 4 * roots) {
        match root_leaf(b, u32le(b, o)) { Some(l) => sa::gset(1, l), None => sa::gset(2, true) }
        return
    }
    let (f, e, k) = sa::gget::<(usize, usize, usize)>(1);
    if sa::known(o >= f) && sa::known(o < f + e * k) { if key_name(b, u32le(b, o)).is_none() { sa::gset(2, true) } }
}
pub fn leaf_lookup() {
    sa::names_uf();
    key!(b, h, n, c, l);
    let Some((f, e, k)) = leaf(b, u32le(b, c + 28)) else { return };
    let t = sa::text();
    sa::gset(0, b); sa::gset(1, (f, e, k)); sa::gset(2, false); sa::gset(5, (0usize, 0usize));
    sa::hook(5, load);
    let r = n.subkey(t);
    sa::unhook(5);
    if sa::gget::<bool>(2) { sa::check(failed(&r), "a lookup that meets an unreadable key is an error") }
}
pub fn index_root_lookup() {
    sa::names_uf();
    key!(b, h, n, c, l);
    let Some((f, k)) = index_root(b, u32le(b, c + 28)) else { return };
    let t = sa::text();
    sa::gset(0, b); sa::gset(1, (0usize, 4usize, 0usize)); sa::gset(2, false); sa::gset(5, (f, k));
    sa::hook(5, load);
    let r = n.subkey(t);
    sa::unhook(5);
    if sa::gget::<bool>(2) { sa::check(failed(&r), "a lookup that meets an unreadable key or leaf is an error") }
}
fn value_load(q: *const u8, n: usize) {
    let b = sa::gget::<B>(0);
    let Some(o) = sa::off_in(q, b) else { return };
    let (f, k) = sa::gget::<(usize, usize)>(1);
    if !sa::known(n == 4) || !sa::known(o >= f) || !sa::known(o < f + 4 * k) { return }
    if value_name(b, u32le(b, o)).is_none() { sa::gset(2, true) }
}
pub fn value_lookup() {
    sa::names_uf();
    key!(b, h, n, c, l);
    if u32le(b, c + 40) == NONE { return }
    let Some((f, k)) = values_list(b, c) else { return };
    sa::gset(0, b); sa::gset(1, (f, k)); sa::gset(2, false);
    sa::hook(5, value_load);
    let r = n.value(sa::text());
    sa::unhook(5);
    if sa::gget::<bool>(2) { sa::check(failed(&r), "a lookup that meets an unreadable value is an error") }
}
