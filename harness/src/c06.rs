//! Structures are used only under their own signature.
use crate::{sa, spec::*};
use nt_hive::*;
pub fn root() {
    let b = sa::bytes();
    let Ok(h) = Hive::without_validation(b) else { return };
    let Some((c, l)) = cell(b, u32le(b, 36)) else { return };
    match h.root_key_node() {
        Ok(_) => { sa::check(l >= 76, "a key node is as long as its header"); sa::check(sig2(b, c, b"nk"), "a key node is signed nk") }
        Err(e) => { sa::check(l < 76 || !sig2(b, c, b"nk"), "a key node signed nk is accepted"); if l >= 76 { sa::check(matches!(e, NtHiveError::InvalidTwoByteSignature { actual, .. } if actual[0] == b[c] && actual[1] == b[c + 1]), "a wrong key node signature is reported") } }
    }
}
/// the verdict about the structure in a valid cell: ok, or an error about header size or signature
fn verdict<T>(b: B, c: usize, l: usize, header: usize, signed: bool, r: &Result<T>) {
    match r {
        Ok(_) => sa::check(l >= header && signed, "only a signed structure is used"),
        Err(NtHiveError::InvalidTwoByteSignature { offset, actual, .. }) => if l >= header && *offset == c { sa::check(!signed, "a signed structure is not refused for its signature") }
        Err(_) => sa::check(signed || l < header, "a wrong signature is reported"),
    }
}
pub fn subkeys_list() {
    key!(b, h, n, c, l);
    let Some((d, m)) = cell(b, u32le(b, c + 28)) else { return };
    let Some(r) = n.subkeys() else { return };
    verdict(b, d, m, 4, m >= 4 && (leaf_entry(b, d) != 0 || sig2(b, d, b"ri")), &r);
}
pub fn kind() {
    key!(b, h, n, c, l);
    let Some((d, m)) = cell(b, u32le(b, c + 28)) else { return };
    match n.subkeys() {
        Some(Ok(SubKeyNodes::Leaf(_))) => sa::check(leaf_entry(b, d) != 0, "a leaf is signed lf, lh or li"),
        Some(Ok(SubKeyNodes::IndexRoot(_))) => sa::check(sig2(b, d, b"ri"), "an index root is signed ri"),
        _ => (),
    }
}
pub fn leaf_entries() {
    key!(b, h, n, c, l);
    let Some((first, e, k)) = leaf(b, u32le(b, c + 28)) else { return };
    let Some(Ok(mut it)) = n.subkeys() else { return };
    let mut i = 0;
    loop {
        let r = it.next();
        if i >= k { return }
        if let (Some(r), Some((d, m))) = (r, cell(b, u32le(b, first + i * e))) { verdict(b, d, m, 76, m >= 76 && sig2(b, d, b"nk"), &r) }
        i += 1;
    }
}
pub fn index_root_entries() {
    key!(b, h, n, c, l);
    let Some((first, k)) = index_root(b, u32le(b, c + 28)) else { return };
    let Some(Ok(mut it)) = n.subkeys() else { return };
    walk(b, &mut it, first, k, |r, e| match (r, e) {
        (Some(r), Some(off)) => if let Some((d, m)) = cell(b, off) { verdict(b, d, m, 76, m >= 76 && sig2(b, d, b"nk"), r) }
        (Some(Ok(_)), None) => sa::check(false, "below an index root only leaves with entries are used"),
        _ => (),
    });
}
pub fn value_entries() {
    key!(b, h, n, c, l);
    let Some((first, k)) = values_list(b, c) else { return };
    let Some(Ok(mut it)) = n.values() else { return };
    let mut i = 0;
    loop {
        let r = it.next();
        if i >= k { return }
        if let (Some(r), Some((d, m))) = (r, cell(b, u32le(b, first + i * 4))) { verdict(b, d, m, 20, m >= 20 && sig2(b, d, b"vk"), &r) }
        i += 1;
    }
}
pub fn big_data() {
    val!(b, h, v, c, l);
    let s = u32le(b, c + 4);
    if s >> 31 == 1 || s <= 16344 { return }
    let Some((d, m)) = cell(b, u32le(b, c + 8)) else { return };
    let r = v.data();
    verdict(b, d, m, 8, m >= 8 && sig2(b, d, b"db"), &r);
}
