//! No input makes the library panic, overflow or loop forever. One root per operation; iterators are driven by an
//! arbitrary sequence of operations.
use crate::sa;
use nt_hive::*;

pub type H = Hive<&'static [u8]>;
pub fn hive() -> Option<H> { sa::coarse(); Hive::without_validation(sa::bytes()).ok() }
macro_rules! node { ($h:ident, $n:ident) => { let Some($h) = crate::c01::hive() else { return }; let Ok($n) = $h.root_key_node() else { return }; } }
macro_rules! value { ($h:ident, $v:ident) => { crate::c01::node!($h, n); let Some(Ok(mut vs)) = n.values() else { return }; let Some(Ok($v)) = vs.next() else { return }; } }
pub(crate) use node;
pub(crate) use value;

pub fn new() { sa::coarse(); if let Ok(h) = Hive::new(sa::bytes()) { let _ = (h.major_version(), h.minor_version()); } }
pub fn unvalidated() { if let Some(h) = hive() { let _ = (h.major_version(), h.minor_version(), h.validate()); } }
pub fn root_key_node() { if let Some(h) = hive() { let _ = h.root_key_node(); } }
pub fn key_name() { node!(h, n); let _ = n.name(); }
pub fn key_class_name() { node!(h, n); let _ = n.class_name(); }
pub fn key_eq() { node!(h, n); if let Ok(m) = h.root_key_node() { let _ = (n == m, n.clone() != m); } }
pub fn subkey_uf() { node!(h, n); sa::names_uf(); let _ = n.subkey(sa::text()); }
pub fn subpath_uf() { node!(h, n); sa::names_uf(); let _ = n.subpath(sa::text()); }
pub fn value_uf() { node!(h, n); sa::names_uf(); let _ = n.value(sa::text()); }
pub fn subkeys_next() { node!(h, n); let Some(Ok(mut it)) = n.subkeys() else { return }; loop { match sa::any::<u8>() { 0 => { let _ = it.next(); } 1 => { it = it.clone(); } 2 => { let _ = it.size_hint(); } _ => return } } }
pub fn subkeys_nth() { node!(h, n); let Some(Ok(mut it)) = n.subkeys() else { return }; while sa::any() { it.next(); } let _ = it.nth(sa::any()); if sa::any() { it.next(); } }
pub fn subkeys_count() { node!(h, n); let Some(Ok(mut it)) = n.subkeys() else { return }; if sa::any() { it.next(); } let _ = it.count(); }
pub fn subkeys_last() { node!(h, n); let Some(Ok(mut it)) = n.subkeys() else { return }; if sa::any() { it.next(); } let _ = it.last(); }
pub fn values_iter() {
    node!(h, n);
    let Some(Ok(mut it)) = n.values() else { return };
    loop {
        match sa::any::<u8>() {
            0 => { let _ = it.next(); }
            1 => { let _ = it.nth(sa::any()); }
            2 => { let _ = (it.size_hint(), it.len()); }
            3 => { it = it.clone(); }
            4 => { let _ = it.count(); return }
            5 => { let _ = it.last(); return }
            _ => return,
        }
    }
}
pub fn value_header() { value!(h, v); let _ = (v.data_size(), v.data_type(), v.name()); let w = v.clone(); let _ = v == w; }
pub fn value_data() { value!(h, v); let _ = v.data(); }
pub fn value_vec() { value!(h, v); if let Ok(d) = v.data() { let _ = d.into_vec(); } }
pub fn value_string() { value!(h, v); let _ = v.string_data(); }
pub fn value_dword() { value!(h, v); let _ = v.dword_data(); }
pub fn value_qword() { value!(h, v); let _ = v.qword_data(); }
pub fn value_multi() { value!(h, v); let Ok(mut it) = v.multi_string_data() else { return }; loop { if sa::any() { return } if sa::any() { it = it.clone(); } let _ = it.next(); } }
pub fn big_iter() {
    value!(h, v);
    let Ok(KeyValueData::Big(mut it)) = v.data() else { return };
    loop {
        match sa::any::<u8>() {
            0 => { let _ = it.next(); }
            1 => { let _ = it.nth(sa::any()); }
            2 => { let _ = (it.size_hint(), it.len()); }
            3 => { it = it.clone(); }
            4 => { let _ = it.count(); return }
            5 => { let _ = it.last(); return }
            _ => return,
        }
    }
}
pub fn clear_volatile() { sa::coarse(); let Ok(mut h) = Hive::without_validation(sa::bytes_mut()) else { return }; let _ = h.clear_volatile_subkeys(); }
fn names() -> NtHiveNameString<'static> { if sa::any() { NtHiveNameString::Latin1(sa::bytes()) } else { NtHiveNameString::Utf16LE(sa::bytes()) } }
pub fn name_len() { let n = names(); let _ = (n.len(), n.is_empty()); }
pub fn name_checked() { let _ = names().to_string_checked(); }
pub fn name_lossy() { let _ = names().to_string_lossy(); }
pub fn name_display() { let mut f: std::fmt::Formatter<'static> = sa::any(); let _ = std::fmt::Display::fmt(&names(), &mut f); }
pub fn name_cmp() { let (a, b) = (names(), names()); let _ = a.cmp(&b); }
pub fn name_partial_cmp() { let (a, b) = (names(), names()); let _ = a.partial_cmp(&b); }
pub fn name_eq() { let (a, b) = (names(), names()); let _ = a == b; }
pub fn name_str() { let (a, b) = (names(), sa::text()); let _ = a.partial_cmp(b); }
pub fn str_name() { let (a, b) = (names(), sa::text()); let _ = b.partial_cmp(&a); }
pub fn name_eq_str() { let (a, b) = (names(), sa::text()); let _ = a == *b; }
pub fn str_eq_name() { let (a, b) = (names(), sa::text()); let _ = *b == a; }
pub fn name_eq_ref() { let (a, b) = (names(), sa::text()); let _ = a == b; }
pub fn ref_eq_name() { let (a, b) = (names(), sa::text()); let _ = b == a; }
pub fn name_ref() { let (a, b) = (names(), sa::text()); let _ = a.partial_cmp(&b); }
pub fn ref_name() { let (a, b) = (names(), sa::text()); let _ = (&b).partial_cmp(&a); }
