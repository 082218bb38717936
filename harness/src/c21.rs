//! An error says where the fault is in the file and which values are there.
use crate::{sa, spec::*};
use nt_hive::{NtHiveError as E, *};
fn same(a: &[u8], b: &'static [u8]) -> bool {
    if a.len() != b.len() { return false }
    let mut i = 0;
    while i < b.len() { if a[i] != b[i] { return false } i += 1; }
    true
}
fn short(e: &E, at: usize, want: usize, have: usize) -> bool { match e { E::InvalidHeaderSize { offset, expected, actual } => *offset == at && *expected == want && *actual == have, _ => false } }
fn size_field(e: &E, at: usize, want: usize, have: usize) -> bool { match e { E::InvalidSizeField { offset, expected, actual } => *offset == at && *expected == want && *actual == have, _ => false } }
fn data_size(e: &E, at: usize, want: usize, have: usize) -> bool { match e { E::InvalidDataSize { offset, expected, actual } => *offset == at && *expected == want && *actual == have, _ => false } }
fn signature(b: B, e: &E, at: usize, want: &'static [u8]) -> bool { match e { E::InvalidTwoByteSignature { offset, expected, actual } => *offset == at && same(expected, want) && actual[0] == b[at] && actual[1] == b[at + 1], _ => false } }
/// a fault of the cell at a data offset
fn cell_fault(b: B, off: u32, e: &E) -> bool {
    let o = off as usize + 4096;
    if b.len() < o + 4 { return short(e, o, 4, if o < b.len() { b.len() - o } else { 0 }) }
    let stored = u32le(b, o) as i32;
    let n = stored.unsigned_abs() as usize;
    match e {
        E::UnallocatedCell { offset, size } => *offset == o && *size == stored && stored >= 0,
        E::InvalidSizeFieldAlignment { offset, size, expected_alignment } => *offset == o && *size == n && *expected_alignment == 8 && n % 8 != 0,
        E::InvalidSizeField { .. } => n >= 4 && size_field(e, o, n - 4, b.len() - o - 4) && b.len() < o + n,
        _ => false,
    }
}
/// a fault of the signed structure in the cell at a data offset
fn fault(b: B, off: u32, e: &E, header: usize, sig: &'static [u8; 2]) -> bool {
    match cell(b, off) {
        None => cell_fault(b, off, e),
        Some((c, l)) => if l < header { short(e, c, header, l) } else { signature(b, e, c, sig) && !sig2(b, c, sig) },
    }
}
fn list_fault(b: B, off: u32, e: &E, roots: bool) -> bool {
    let Some((c, l)) = cell(b, off) else { return cell_fault(b, off, e) };
    if l < 4 { return short(e, c, 4, l) }
    let k = u16le(b, c + 2) as usize;
    if roots && sig2(b, c, b"ri") { return l - 4 < 4 * k && size_field(e, c + 2, 4 * k, l - 4) }
    match leaf_entry(b, c) {
        0 => signature(b, e, c, if roots { b"lf|lh|li|ri" } else { b"lf|lh|li" }),
        n => if !roots && k == 0 { size_field(e, c + 2, 1, 0) } else { l - 4 < n * k && size_field(e, c + 2, n * k, l - 4) },
    }
}
fn name_fault(b: B, field: usize, e: &E, have: usize) -> bool { let n = u16le(b, field) as usize; n > have && size_field(e, field, n, have) }
pub fn short_file() { let b = sa::bytes(); if let Err(e) = Hive::without_validation(b) { sa::check(b.len() < 4096 && short(&e, 0, 4096, b.len()), "too few bytes for a base block are reported as such") } }
pub fn base_block() {
    let b = sa::bytes();
    let Ok(h) = Hive::without_validation(b) else { return };
    let Err(e) = h.validate() else { return };
    let x = |o| u32le(b, o);
    sa::check(match e {
        E::InvalidFourByteSignature { offset, expected, actual } => offset == 0 && same(expected, b"regf") && actual[0] == b[0] && actual[1] == b[1] && actual[2] == b[2] && actual[3] == b[3],
        E::SequenceNumberMismatch { primary, secondary } => primary == x(4) && secondary == x(8) && primary != secondary,
        E::UnsupportedVersion { major, minor } => major == x(20) && minor == x(24),
        E::UnsupportedFileType { expected, actual } => expected == 0 && actual == x(28) && actual != 0,
        E::UnsupportedFileFormat { expected, actual } => expected == 1 && actual == x(32) && actual != 1,
        E::InvalidSizeFieldAlignment { offset, size, expected_alignment } => offset == 40 && size == x(40) as usize && expected_alignment == 4096 && size % 4096 != 0,
        E::InvalidSizeField { offset, expected, actual } => offset == 40 && expected == x(40) as usize && actual == b.len() - 4096 && expected > actual,
        E::UnsupportedClusteringFactor { expected, actual } => expected == 1 && actual == x(44) && actual != 1,
        E::InvalidChecksum { expected, actual } => actual == x(508) && expected != actual,
        _ => false,
    }, "a base block error tells the field and its value");
}
pub fn root() {
    let b = sa::bytes();
    let Ok(h) = Hive::without_validation(b) else { return };
    if let Err(e) = h.root_key_node() { sa::check(fault(b, u32le(b, 36), &e, 76, b"nk"), "an error about the root key is true") }
}
pub fn key_names() { key!(b, h, n, c, l); if let Err(e) = n.name() { sa::check(name_fault(b, c + 72, &e, l - 76), "an error about a key name is true") } }
pub fn class_name() {
    key!(b, h, n, c, l);
    let off = u32le(b, c + 48);
    if let Some(Err(e)) = n.class_name() { sa::check(match cell(b, off) { None => cell_fault(b, off, &e), Some((_, m)) => name_fault(b, c + 74, &e, m) }, "an error about a class name is true") }
}
pub fn subkeys_list() { key!(b, h, n, c, l); if let Some(Err(e)) = n.subkeys() { sa::check(list_fault(b, u32le(b, c + 28), &e, true), "an error about a subkeys list is true") } }
pub fn values_lists() {
    key!(b, h, n, c, l);
    let off = u32le(b, c + 40);
    if let Some(Err(e)) = n.values() { sa::check(match cell(b, off) { None => cell_fault(b, off, &e), Some((_, m)) => { let k = 4 * u32le(b, c + 36) as usize; k > m && size_field(&e, c + 36, k, m) } }, "an error about a values list is true") }
}
pub fn leaf_entries() {
    key!(b, h, n, c, l);
    let Some((first, e, k)) = leaf(b, u32le(b, c + 28)) else { return };
    let Some(Ok(mut it)) = n.subkeys() else { return };
    let mut i = 0;
    loop {
        let r = it.next();
        if i >= k { return }
        if let Some(Err(x)) = r { sa::check(fault(b, u32le(b, first + i * e), &x, 76, b"nk"), "an error about a subkey is true") }
        i += 1;
    }
}
pub fn index_root_entries() {
    key!(b, h, n, c, l);
    let Some((first, k)) = index_root(b, u32le(b, c + 28)) else { return };
    let Some(Ok(mut it)) = n.subkeys() else { return };
    let mut i = 0;
    let (mut lf, mut wide, mut left) = (0, false, 0);
    loop {
        if left == 0 {
            if i == k { return }
            let off = u32le(b, first + 4 * i);
            i += 1;
            match root_leaf(b, off) {
                None => { if let Some(Err(x)) = it.next() { sa::check(list_fault(b, off, &x, false), "an error about a leaf below an index root is true") } continue }
                Some((f, e, n)) => { lf = f; wide = e == 8; left = n }
            }
        }
        if let Some(Err(x)) = it.next() { sa::check(fault(b, u32le(b, lf), &x, 76, b"nk"), "an error about a subkey below an index root is true") }
        lf += if wide { 8 } else { 4 };
        left -= 1;
    }
}
pub fn value_entries() {
    key!(b, h, n, c, l);
    let Some((first, k)) = values_list(b, c) else { return };
    let Some(Ok(mut it)) = n.values() else { return };
    let mut i = 0;
    loop {
        let r = it.next();
        if i >= k { return }
        if let Some(Err(x)) = r { sa::check(fault(b, u32le(b, first + i * 4), &x, 20, b"vk"), "an error about a value is true") }
        i += 1;
    }
}
pub fn value_names() { val!(b, h, v, c, l); if let Err(e) = v.name() { sa::check(name_fault(b, c + 2, &e, l - 20), "an error about a value name is true") } }
fn type_fault(b: B, c: usize, e: &E) -> bool { match e { E::UnsupportedKeyValueDataType { offset, actual } => *offset == c + 12 && *actual == u32le(b, c + 12) && *actual > 11, _ => false } }
fn data_fault(b: B, c: usize, e: &E) -> bool {
    let s = u32le(b, c + 4);
    let n = (s & 0x7fff_ffff) as usize;
    if s >> 31 == 1 { return n > 4 && size_field(e, c + 4, n, 4) }
    let off = u32le(b, c + 8);
    let Some((d, l)) = cell(b, off) else { return cell_fault(b, off, e) };
    if n <= 16344 { return l < n && data_size(e, d, n, l) }
    if l < 8 { return short(e, d, 8, l) }
    if !sig2(b, d, b"db") { return signature(b, e, d, b"db") }
    let k = u16le(b, d + 2) as usize;
    if n > k * 16344 { return size_field(e, c + 4, n, k * 16344) }
    let list = u32le(b, d + 4);
    match cell(b, list) { None => cell_fault(b, list, e), Some((_, m)) => 4 * k > m && size_field(e, d + 2, 4 * k, m) }
}
pub fn data() { val!(b, h, v, c, l); if let Err(e) = v.data() { sa::check(data_fault(b, c, &e), "an error about data is true") } }
pub fn data_type() { val!(b, h, v, c, l); if let Err(e) = v.data_type() { sa::check(type_fault(b, c, &e), "an error about a data type is true") } }
/// the only other faults typed accessors find: another type, and another size
fn typed(b: B, c: usize, e: &E, first: KeyValueDataType, more: usize, size: usize) -> bool {
    match e {
        E::InvalidKeyValueDataType { expected, actual } => expected.len() == more + 1 && expected[0] == first && crate::c09::code(*actual) == u32le(b, c + 12),
        E::UnsupportedKeyValueDataType { .. } => type_fault(b, c, e),
        _ => match stored(b, c) {
            Stored::Bad => data_fault(b, c, e),
            Stored::At(d, n) => n != size && data_size(e, d, size, n),
            Stored::Segments(_, n) => data_size(e, u32le(b, c + 8) as usize + 4096, size, n),
        },
    }
}
pub fn dword() { val!(b, h, v, c, l); if let Err(e) = v.dword_data() { sa::check(typed(b, c, &e, KeyValueDataType::RegDWord, 1, 4), "an error of dword_data is true") } }
pub fn qword() { val!(b, h, v, c, l); if let Err(e) = v.qword_data() { sa::check(typed(b, c, &e, KeyValueDataType::RegQWord, 0, 8), "an error of qword_data is true") } }
pub fn string() {
    val!(b, h, v, c, l);
    if let Stored::Segments(..) = stored(b, c) { return }
    if let Err(e) = v.string_data() { sa::check(typed(b, c, &e, KeyValueDataType::RegSZ, 1, usize::MAX), "an error of string_data is true") }
}
pub fn multi() { val!(b, h, v, c, l); if let Err(e) = v.multi_string_data() { sa::check(typed(b, c, &e, KeyValueDataType::RegMultiSZ, 0, usize::MAX), "an error of multi_string_data is true") } }
pub fn segments() {
    val!(b, h, v, c, l);
    let Stored::Segments(first, mut left) = stored(b, c) else { return };
    let Ok(KeyValueData::Big(mut it)) = v.data() else { return };
    let mut i = 0;
    loop {
        let r = it.next();
        if left == 0 { return }
        let n = if left < 16344 { left } else { 16344 };
        let off = u32le(b, first + 4 * i);
        if let Some(Err(e)) = r { sa::check(match cell(b, off) { None => cell_fault(b, off, &e), Some((d, m)) => m < n && data_size(&e, d, n, m) }, "an error about a segment is true") }
        left -= n;
        i += 1;
    }
}
// ghost: 0 the hive, 1 the leaf at hand (first entry, entry size, count), 2 offset of the entry at hand (0: none), 5 the index root (first entry, count), 6 offset of the root entry at hand
fn load(q: *const u8, n: usize) {
    let b = sa::gget::<B>(0);
    let Some(o) = sa::off_in(q, b) else { return };
    if !sa::known(n >= 4) || !sa::known(n <= 8) { return }
    let (first, roots) = sa::gget::<(usize, usize)>(5);
    if sa::known(roots > 0) && sa::known(o >= first) && sa::known(o < first + 4 * roots) {
        sa::gset(6, o);
        sa::gset(2, 0usize);
        if let Some(l) = root_leaf(b, u32le(b, o)) { sa::gset(1, l) }
        return
    }
    let (f, e, k) = sa::gget::<(usize, usize, usize)>(1);
    if sa::known(o >= f) && sa::known(o < f + e * k) { sa::gset(2, o) }
}
fn entry_fault(b: B, e: &E, header: usize, sig: &'static [u8; 2], name: usize) -> bool {
    let o = sa::gget::<usize>(2);
    if o == 0 {
        let r = sa::gget::<usize>(6);
        return r != 0 && list_fault(b, u32le(b, r), e, false)
    }
    let off = u32le(b, o);
    match signed(b, off, sig, header) { None => fault(b, off, e, header, sig), Some((c, l)) => name_fault(b, c + name, e, l - header) }
}
pub fn subkey_of_leaf() {
    sa::names_uf();
    key!(b, h, n, c, l);
    let Some((f, e, k)) = leaf(b, u32le(b, c + 28)) else { return };
    let t = sa::text();
    sa::gset(0, b); sa::gset(1, (f, e, k)); sa::gset(2, 0usize); sa::gset(5, (0usize, 0usize)); sa::gset(6, 0usize);
    sa::hook(5, load);
    let r = n.subkey(t);
    sa::unhook(5);
    if let Some(Err(x)) = r { sa::check(entry_fault(b, &x, 76, b"nk", 72), "an error of a subkey lookup is about the key at hand") }
}
pub fn subkey_of_index_root() {
    sa::names_uf();
    key!(b, h, n, c, l);
    let Some((f, k)) = index_root(b, u32le(b, c + 28)) else { return };
    let t = sa::text();
    sa::gset(0, b); sa::gset(1, (0usize, 4usize, 0usize)); sa::gset(2, 0usize); sa::gset(5, (f, k)); sa::gset(6, 0usize);
    sa::hook(5, load);
    let r = n.subkey(t);
    sa::unhook(5);
    if let Some(Err(x)) = r { sa::check(entry_fault(b, &x, 76, b"nk", 72), "an error of a subkey lookup is about the key or leaf at hand") }
}
pub fn subkey_list() {
    sa::names_uf();
    key!(b, h, n, c, l);
    let off = u32le(b, c + 28);
    if off == NONE || leaf(b, off).is_some() || index_root(b, off).is_some() { return }
    if let Some(Err(e)) = n.subkey(sa::text()) { sa::check(list_fault(b, off, &e, true), "an error of a subkey lookup about the list is true") }
}
fn value_load(q: *const u8, n: usize) {
    let b = sa::gget::<B>(0);
    let Some(o) = sa::off_in(q, b) else { return };
    let (f, k) = sa::gget::<(usize, usize)>(1);
    if sa::known(n == 4) && sa::known(o >= f) && sa::known(o < f + 4 * k) { sa::gset(2, o) }
}
pub fn value_lookup() {
    sa::names_uf();
    key!(b, h, n, c, l);
    if u32le(b, c + 40) == NONE { return }
    let Some((f, k)) = values_list(b, c) else { return };
    sa::gset(0, b); sa::gset(1, (f, k)); sa::gset(2, 0usize); sa::gset(6, 0usize);
    sa::hook(5, value_load);
    let r = n.value(sa::text());
    sa::unhook(5);
    if let Some(Err(x)) = r { sa::check(entry_fault(b, &x, 20, b"vk", 2), "an error of a value lookup is about the value at hand") }
}
