//! A cell is used only if it is allocated, aligned and inside the hive; and then it is.
use crate::{sa, spec::*};
use nt_hive::*;
pub fn root() {
    let b = sa::bytes();
    let Ok(h) = Hive::without_validation(b) else { return };
    let off = u32le(b, 36);
    match h.root_key_node() { Ok(_) => sa::check(cell(b, off).is_some(), "the root cell is valid"), Err(_) => sa::check(nk(b, off).is_none(), "a valid root cell is accepted") }
}
pub fn subkeys_list() {
    key!(b, h, n, c, l);
    let off = u32le(b, c + 28);
    match n.subkeys() {
        None => sa::check(off == NONE, "a subkeys list offset is followed"),
        Some(Ok(_)) => sa::check(cell(b, off).is_some(), "the subkeys list cell is valid"),
        Some(Err(_)) => sa::check(leaf(b, off).is_none() && index_root(b, off).is_none(), "a valid subkeys list is accepted"),
    }
}
pub fn leaf_entries() {
    key!(b, h, n, c, l);
    let Some((first, e, k)) = leaf(b, u32le(b, c + 28)) else { return };
    let Some(Ok(mut it)) = n.subkeys() else { return };
    let mut i = 0;
    loop {
        let r = it.next();
        if i >= k { return }
        let off = u32le(b, first + i * e);
        match r {
            None => { sa::check(false, "every leaf entry is followed"); return }
            Some(Ok(_)) => sa::check(cell(b, off).is_some(), "the cell of a leaf entry is valid"),
            Some(Err(_)) => sa::check(nk(b, off).is_none(), "a valid leaf entry is accepted"),
        }
        i += 1;
    }
}
pub fn index_root_entries() {
    key!(b, h, n, c, l);
    let Some((first, k)) = index_root(b, u32le(b, c + 28)) else { return };
    let Some(Ok(mut it)) = n.subkeys() else { return };
    walk(b, &mut it, first, k, |r, e| match (r, e) {
        (Some(Ok(_)), Some(off)) => sa::check(cell(b, off).is_some(), "the cell of a leaf entry below an index root is valid"),
        (Some(Err(_)), Some(off)) => sa::check(nk(b, off).is_none(), "a valid leaf entry below an index root is accepted"),
        (Some(Ok(_)), None) => sa::check(false, "a leaf in an invalid cell is not used"),
        _ => (),
    });
}
pub fn values() {
    key!(b, h, n, c, l);
    let off = u32le(b, c + 40);
    match n.values() {
        None => sa::check(off == NONE, "a values list offset is followed"),
        Some(Ok(_)) => sa::check(cell(b, off).is_some(), "the values list cell is valid"),
        Some(Err(_)) => sa::check(values_list(b, c).is_none(), "a valid values list is accepted"),
    }
}
pub fn value_entries() {
    key!(b, h, n, c, l);
    let Some((first, k)) = values_list(b, c) else { return };
    let Some(Ok(mut it)) = n.values() else { return };
    let mut i = 0;
    loop {
        let r = it.next();
        if i >= k { return }
        let off = u32le(b, first + i * 4);
        match r {
            None => { sa::check(false, "every values list entry is followed"); return }
            Some(Ok(_)) => sa::check(cell(b, off).is_some(), "the cell of a value is valid"),
            Some(Err(_)) => sa::check(vk(b, off).is_none(), "a valid values list entry is accepted"),
        }
        i += 1;
    }
}
pub fn class_name() {
    key!(b, h, n, c, l);
    let off = u32le(b, c + 48);
    match n.class_name() {
        None => sa::check(off == NONE, "a class name offset is followed"),
        Some(Ok(_)) => sa::check(cell(b, off).is_some(), "the class name cell is valid"),
        Some(Err(_)) => sa::check(match cell(b, off) { Some((_, n)) => n < u16le(b, c + 74) as usize, None => true }, "a valid class name cell is accepted"),
    }
}
pub fn data() {
    val!(b, h, v, c, l);
    let s = u32le(b, c + 4);
    match v.data() {
        Ok(KeyValueData::Small(_)) => if s >> 31 == 0 { sa::check(cell(b, u32le(b, c + 8)).is_some(), "the data cell is valid") },
        Ok(KeyValueData::Big(_)) => match cell(b, u32le(b, c + 8)) { Some((d, n)) if n >= 8 => sa::check(cell(b, u32le(b, d + 4)).is_some(), "the big data list cell is valid"), _ => sa::check(false, "the big data cell is valid") },
        Err(_) => sa::check(matches!(stored(b, c), Stored::Bad), "valid data cells are accepted"),
    }
}
pub fn segments() {
    val!(b, h, v, c, l);
    let Stored::Segments(first, mut left) = stored(b, c) else { return };
    let Ok(KeyValueData::Big(mut it)) = v.data() else { return };
    let mut i = 0;
    loop {
        let r = it.next();
        if left == 0 { return }
        let n = if left < 16344 { left } else { 16344 };
        let s = cell(b, u32le(b, first + 4 * i));
        match r {
            None => { sa::check(false, "every segment up to the declared size is followed"); return }
            Some(Ok(_)) => sa::check(s.is_some(), "the cell of a segment is valid"),
            Some(Err(_)) => sa::check(match s { Some((_, l)) => l < n, None => true }, "a valid segment cell is accepted"),
        }
        left -= n;
        i += 1;
    }
}
