//! Value data is exactly the declared bytes, wherever it is stored.
use crate::{sa, spec::*};
use nt_hive::*;
pub fn name() {
    val!(b, h, v, c, l);
    let len = u16le(b, c + 2) as usize;
    let latin1 = u16le(b, c + 16) & 1 != 0;
    match v.name() {
        Ok(NtHiveNameString::Latin1(x)) => { sa::check(latin1, "a value name is Latin1 only with flag 0x0001"); sa::check(addr(b, x) == c + 20, "the value name follows the header"); sa::check(x.len() == len && len + 20 <= l, "the value name has the declared length") }
        Ok(NtHiveNameString::Utf16LE(x)) => { sa::check(!latin1, "a value name is UTF-16 only without flag 0x0001"); sa::check(addr(b, x) == c + 20, "the value name follows the header"); sa::check(x.len() == len && len + 20 <= l, "the value name has the declared length") }
        Err(_) => sa::check(len + 20 > l, "a value name that fits its cell is returned"),
    }
}
pub fn data_size() { val!(b, h, v, c, l); sa::check(v.data_size() == u32le(b, c + 4) & 0x7fff_ffff, "data_size is the low 31 bits of the size field"); }
pub fn data() {
    val!(b, h, v, c, l);
    match (v.data(), stored(b, c)) {
        (Ok(KeyValueData::Small(x)), Stored::At(d, n)) => { sa::check(addr(b, x) == d, "the data is where the value says"); sa::check(x.len() == n, "the data has the declared size"); }
        (Ok(KeyValueData::Small(_)), _) => sa::check(false, "only small data is in one piece"),
        (Ok(KeyValueData::Big(_)), s) => sa::check(matches!(s, Stored::Segments(..)), "only valid big data is segmented"),
        (Err(_), s) => sa::check(matches!(s, Stored::Bad), "valid data is returned"),
    }
}
pub fn segments() {
    val!(b, h, v, c, l);
    let Stored::Segments(first, mut left) = stored(b, c) else { return };
    let Ok(KeyValueData::Big(mut it)) = v.data() else { return };
    let mut i = 0;
    loop {
        let r = it.next();
        if left == 0 { sa::check(r.is_none(), "no segment beyond the data"); return }
        let n = if left < 16344 { left } else { 16344 };
        let good = match cell(b, u32le(b, first + 4 * i)) { Some((d, l)) if l >= n => Some(d), _ => None };
        match r {
            None => { sa::check(false, "segments up to the declared size"); return }
            Some(Ok(x)) => match good { Some(d) => { sa::check(addr(b, x) == d, "a segment is where its list entry says"); sa::check(x.len() == n, "a segment holds 16344 bytes except the last") } None => sa::check(false, "a segment in an invalid cell is not returned") },
            Some(Err(_)) => sa::check(good.is_none(), "a valid segment is returned"),
        }
        left -= n;
        i += 1;
    }
}
