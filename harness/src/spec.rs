//! The regf format as the contracts understand it: pure functions of the hive bytes. Offsets are file offsets.
pub type B = &'static [u8];
pub fn u8at(b: B, o: usize) -> u8 { b[o] }
pub fn u16le(b: B, o: usize) -> u16 { u16::from_le_bytes(b[o..o + 2].try_into().unwrap()) }
pub fn u32le(b: B, o: usize) -> u32 { u32::from_le_bytes(b[o..o + 4].try_into().unwrap()) }
pub fn sig2(b: B, o: usize, s: &[u8; 2]) -> bool { b[o] == s[0] && b[o + 1] == s[1] }
/// file offset of the data of the cell at a data offset, and its length
pub fn cell(b: B, off: u32) -> Option<(usize, usize)> {
    let o = off as usize + 4096;
    if b.len() < o + 4 { return None }
    let size = u32le(b, o) as i32;
    if size >= 0 { return None }
    let size = size.unsigned_abs() as usize;
    if size % 8 != 0 { return None }
    if b.len() < o + size { return None }
    Some((o + 4, size - 4))
}
/// the cell of a signed structure
pub fn signed(b: B, off: u32, s: &[u8; 2], header: usize) -> Option<(usize, usize)> {
    let (c, n) = cell(b, off)?;
    if n >= header && sig2(b, c, s) { Some((c, n)) } else { None }
}
pub fn nk(b: B, off: u32) -> Option<(usize, usize)> { signed(b, off, b"nk", 76) }
pub fn vk(b: B, off: u32) -> Option<(usize, usize)> { signed(b, off, b"vk", 20) }
/// entry size of a leaf, 0 if it is none
pub fn leaf_entry(b: B, c: usize) -> usize { if sig2(b, c, b"lf") || sig2(b, c, b"lh") { 8 } else if sig2(b, c, b"li") { 4 } else { 0 } }
/// a leaf: file offset of its first entry, entry size, count
pub fn leaf(b: B, off: u32) -> Option<(usize, usize, usize)> {
    let (c, n) = cell(b, off)?;
    if n < 4 { return None }
    let e = leaf_entry(b, c);
    let k = u16le(b, c + 2) as usize;
    if e == 0 || n < 4 + k * e { None } else { Some((c + 4, e, k)) }
}
/// an index root: file offset of its first entry, count
pub fn index_root(b: B, off: u32) -> Option<(usize, usize)> {
    let (c, n) = signed(b, off, b"ri", 4)?;
    let k = u16le(b, c + 2) as usize;
    if n < 4 + 4 * k { None } else { Some((c + 4, k)) }
}
pub fn addr(b: B, s: &[u8]) -> usize { s.as_ptr() as usize - b.as_ptr() as usize }
/// an arbitrary hive, its root key, and the file offset and length of that key's cell
macro_rules! key { ($b:ident, $h:ident, $n:ident, $c:ident, $l:ident) => {
    let $b = crate::sa::bytes();
    let Ok($h) = nt_hive::Hive::without_validation($b) else { return };
    let Some(($c, $l)) = crate::spec::nk($b, crate::spec::u32le($b, 36)) else { return };
    let Ok($n) = $h.root_key_node() else { return };
} }
pub(crate) use key;
pub const NONE: u32 = 0xffff_ffff;
/// the values list of a key: file offset of its first entry, count
pub fn values_list(b: B, key: usize) -> Option<(usize, usize)> {
    let (c, n) = cell(b, u32le(b, key + 40))?;
    let k = u32le(b, key + 36) as usize;
    if n < 4 * k { None } else { Some((c, k)) }
}
/// an arbitrary value: the first one of an arbitrary key; file offset and length of its cell
macro_rules! val { ($b:ident, $h:ident, $v:ident, $c:ident, $l:ident) => {
    key!($b, $h, key, kc, kl);
    if crate::spec::u32le($b, kc + 40) == crate::spec::NONE { return }
    let Some((first, k)) = crate::spec::values_list($b, kc) else { return };
    if k == 0 { return }
    let Some(($c, $l)) = crate::spec::vk($b, crate::spec::u32le($b, first)) else { return };
    let Some(Ok(mut it)) = key.values() else { return };
    let Some(Ok($v)) = it.next() else { return };
} }
pub(crate) use val;
pub fn name_bytes<'a>(n: &nt_hive::NtHiveNameString<'a>) -> (bool, &'a [u8]) { match n { nt_hive::NtHiveNameString::Latin1(x) => (true, *x), nt_hive::NtHiveNameString::Utf16LE(x) => (false, *x) } }
/// is `k` the key whose cell is at this data offset (as far as its name shows)?
pub fn is_key(b: B, k: &K, off: u32) -> bool {
    let Some((c, l)) = nk(b, off) else { return false };
    let n = u16le(b, c + 72) as usize;
    match k.name() {
        Ok(NtHiveNameString::Latin1(x)) => addr(b, x) == c + 76 && x.len() == n && u16le(b, c + 2) & 0x20 != 0,
        Ok(NtHiveNameString::Utf16LE(x)) => addr(b, x) == c + 76 && x.len() == n && u16le(b, c + 2) & 0x20 == 0,
        Err(_) => n > l - 76,
    }
}
pub fn is_value(b: B, v: &Vl, off: u32) -> bool {
    let Some((c, l)) = vk(b, off) else { return false };
    let n = u16le(b, c + 2) as usize;
    match v.name() {
        Ok(NtHiveNameString::Latin1(x)) => addr(b, x) == c + 20 && x.len() == n && u16le(b, c + 16) & 1 != 0,
        Ok(NtHiveNameString::Utf16LE(x)) => addr(b, x) == c + 20 && x.len() == n && u16le(b, c + 16) & 1 == 0,
        Err(_) => n > l - 20,
    }
}
use nt_hive::*;
pub type K<'h> = KeyNode<'h, &'static [u8]>;
pub type Vl<'h> = KeyValue<'h, &'static [u8]>;
/// where the data of the value whose header is at `c` is stored
pub enum Stored { Bad, At(usize, usize), Segments(usize, usize) }
pub fn stored(b: B, c: usize) -> Stored {
    let s = u32le(b, c + 4);
    let n = (s & 0x7fff_ffff) as usize;
    if s >> 31 == 1 { return if n <= 4 { Stored::At(c + 8, n) } else { Stored::Bad } }
    let off = u32le(b, c + 8);
    if n <= 16344 { return match cell(b, off) { Some((d, l)) if l >= n => Stored::At(d, n), _ => Stored::Bad } }
    let Some((d, _)) = signed(b, off, b"db", 8) else { return Stored::Bad };
    let k = u16le(b, d + 2) as usize;
    if n > k * 16344 { return Stored::Bad }
    match cell(b, u32le(b, d + 4)) { Some((f, l)) if l >= 4 * k => Stored::Segments(f, n), _ => Stored::Bad }
}
/// a leaf an index root may refer to
pub fn root_leaf(b: B, off: u32) -> Option<(usize, usize, usize)> { match leaf(b, off) { Some((f, e, k)) if k > 0 => Some((f, e, k)), _ => None } }
/// steps the iterator over an index root; `f` gets each item and the list entry it has to come from (none: the leaf is invalid)
pub fn walk<'h>(b: B, it: &mut SubKeyNodes<'h, B>, first: usize, k: usize, f: impl Fn(&Option<Result<K<'h>>>, Option<u32>)) {
    let mut i = 0;
    let (mut lf, mut wide, mut left) = (0, false, 0);
    loop {
        if left == 0 {
            if i == k { break }
            let l = root_leaf(b, u32le(b, first + 4 * i));
            i += 1;
            match l {
                None => { let r = it.next(); f(&r, None); continue }
                Some((f, e, n)) => { lf = f; wide = e == 8; left = n }
            }
        }
        let r = it.next();
        f(&r, Some(u32le(b, lf)));
        lf += if wide { 8 } else { 4 };
        left -= 1;
    }
    let r = it.next();
    crate::sa::check(r.is_none(), "nothing after the last entry of the last leaf");
}
