//! Iterators visit every list entry exactly once, in order.
use crate::{sa, spec::*};
use nt_hive::*;
pub fn values() {
    key!(b, h, n, c, l);
    let Some((first, k)) = values_list(b, c) else { return };
    let Some(Ok(mut it)) = n.values() else { return };
    let mut i = 0;
    loop {
        let r = it.next();
        if i >= k { sa::check(r.is_none(), "no value beyond the declared count"); return }
        let off = u32le(b, first + i * 4);
        match r {
            None => { sa::check(false, "no value is skipped at the end"); return }
            Some(Ok(v)) => if vk(b, off).is_some() { sa::check(is_value(b, &v, off), "a value is the one of its list entry") },
            Some(Err(_)) => (),
        }
        i += 1;
    }
}
pub fn leaf_entries() {
    key!(b, h, n, c, l);
    let Some((first, e, k)) = leaf(b, u32le(b, c + 28)) else { return };
    let Some(Ok(mut it)) = n.subkeys() else { return };
    let mut i = 0;
    loop {
        let r = it.next();
        if i >= k { sa::check(r.is_none(), "no subkey beyond the declared count"); return }
        let off = u32le(b, first + i * e);
        match r {
            None => { sa::check(false, "no subkey is skipped at the end"); return }
            Some(Ok(v)) => if nk(b, off).is_some() { sa::check(is_key(b, &v, off), "a subkey is the one of its list entry") },
            Some(Err(_)) => (),
        }
        i += 1;
    }
}
pub fn index_root_entries() {
    key!(b, h, n, c, l);
    let Some((first, k)) = index_root(b, u32le(b, c + 28)) else { return };
    let Some(Ok(mut it)) = n.subkeys() else { return };
    walk(b, &mut it, first, k, |r, e| match (r, e) {
        (None, _) => sa::check(false, "no entry below an index root is skipped"),
        (Some(Ok(v)), Some(off)) => if nk(b, off).is_some() { sa::check(is_key(b, v, off), "a subkey below an index root is the one of its list entry") },
        (Some(Ok(_)), None) => sa::check(false, "an unreadable leaf gives an error"),
        (Some(Err(_)), _) => (),
    });
}
