//! Key names and class names are exactly the bytes the key node declares.
use crate::{sa, spec::*};
use nt_hive::*;
pub fn name() {
    key!(b, h, n, c, l);
    let len = u16le(b, c + 72) as usize;
    let latin1 = u16le(b, c + 2) & 0x20 != 0;
    match n.name() {
        Ok(NtHiveNameString::Latin1(x)) => { sa::check(latin1, "a name is Latin1 only with flag 0x0020"); sa::check(addr(b, x) == c + 76, "the name follows the key node header"); sa::check(x.len() == len && len + 76 <= l, "the name has the declared length") }
        Ok(NtHiveNameString::Utf16LE(x)) => { sa::check(!latin1, "a name is UTF-16 only without flag 0x0020"); sa::check(addr(b, x) == c + 76, "the name follows the key node header"); sa::check(x.len() == len && len + 76 <= l, "the name has the declared length") }
        Err(_) => sa::check(len + 76 > l, "a name that fits its cell is returned"),
    }
}
pub fn class_name() {
    key!(b, h, n, c, l);
    let off = u32le(b, c + 48);
    let len = u16le(b, c + 74) as usize;
    match n.class_name() {
        None => sa::check(off == NONE, "a class name is absent only with offset 0xffffffff"),
        Some(Ok(NtHiveNameString::Utf16LE(x))) => {
            sa::check(off != NONE, "a class name is present only with an offset");
            match cell(b, off) { Some((d, n)) => { sa::check(addr(b, x) == d, "the class name starts its cell"); sa::check(x.len() == len && len <= n, "the class name has the declared length") } None => sa::check(false, "the class name is in a valid cell") }
        }
        Some(Ok(_)) => sa::check(false, "class names are UTF-16"),
        Some(Err(_)) => { sa::check(off != NONE, "a missing class name is no error"); sa::check(match cell(b, off) { Some((_, n)) => len > n, None => true }, "a class name that fits its cell is returned") }
    }
}
