//! Typed accessors check type and size and decode with the right endianness.
use crate::{sa, spec::*};
use nt_hive::*;
pub fn code(t: KeyValueDataType) -> u32 {
    use KeyValueDataType::*;
    match t { RegNone => 0, RegSZ => 1, RegExpandSZ => 2, RegBinary => 3, RegDWord => 4, RegDWordBigEndian => 5, RegLink => 6, RegMultiSZ => 7, RegResourceList => 8, RegFullResourceDescriptor => 9, RegResourceRequirementsList => 10, RegQWord => 11 }
}
pub fn data_type() {
    val!(b, h, v, c, l);
    let t = u32le(b, c + 12);
    match v.data_type() { Ok(d) => sa::check(code(d) == t, "the data type is the stored one"), Err(_) => sa::check(t > 11, "the data types 0 to 11 are known") }
}
pub fn dword() {
    val!(b, h, v, c, l);
    let t = u32le(b, c + 12);
    let r = v.dword_data();
    match stored(b, c) {
        Stored::At(d, 4) if t == 4 => match r { Ok(x) => sa::check(x == u32le(b, d), "REG_DWORD is little-endian"), Err(_) => sa::check(false, "every 4-byte REG_DWORD is accepted") },
        Stored::At(d, 4) if t == 5 => match r { Ok(x) => sa::check(x == u32::from_be_bytes(b[d..d + 4].try_into().unwrap()), "REG_DWORD_BIG_ENDIAN is big-endian"), Err(_) => sa::check(false, "every 4-byte REG_DWORD_BIG_ENDIAN is accepted") },
        _ => sa::check(r.is_err(), "dword_data is for 4-byte REG_DWORD and REG_DWORD_BIG_ENDIAN only"),
    }
}
pub fn qword() {
    val!(b, h, v, c, l);
    let t = u32le(b, c + 12);
    let r = v.qword_data();
    match stored(b, c) {
        Stored::At(d, 8) if t == 11 => match r { Ok(x) => sa::check(x == u64::from_le_bytes(b[d..d + 8].try_into().unwrap()), "REG_QWORD is little-endian"), Err(_) => sa::check(false, "every 8-byte REG_QWORD is accepted") },
        _ => sa::check(r.is_err(), "qword_data is for 8-byte REG_QWORD only"),
    }
}
pub fn string_type() {
    val!(b, h, v, c, l);
    let t = u32le(b, c + 12);
    let r = v.string_data();
    if r.is_ok() { sa::check(t == 1 || t == 2, "string_data is for REG_SZ and REG_EXPAND_SZ only"); sa::check(!matches!(stored(b, c), Stored::Bad), "string_data needs valid data") }
}
pub fn string_accepted() {
    val!(b, h, v, c, l);
    let t = u32le(b, c + 12);
    if t != 1 && t != 2 { return }
    let Stored::At(..) = stored(b, c) else { return };
    sa::check(v.string_data().is_ok(), "every readable REG_SZ and REG_EXPAND_SZ is accepted");
}
pub fn multi_string() {
    val!(b, h, v, c, l);
    let t = u32le(b, c + 12);
    let r = v.multi_string_data();
    sa::check(r.is_ok() == (t == 7 && !matches!(stored(b, c), Stored::Bad)), "multi_string_data is for every readable REG_MULTI_SZ and nothing else");
}
