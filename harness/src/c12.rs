//! value() returns the first value with that name, or reports why not.
use crate::{sa, spec::*};
use nt_hive::*;
/// the name of the value whose cell is at a data offset, if it can be read
pub fn value_name(b: B, off: u32) -> Option<NtHiveNameString<'static>> {
    let (c, l) = vk(b, off)?;
    let n = u16le(b, c + 2) as usize;
    if n > l - 20 { return None }
    Some(if u16le(b, c + 16) & 1 != 0 { NtHiveNameString::Latin1(&b[c + 20..c + 20 + n]) } else { NtHiveNameString::Utf16LE(&b[c + 20..c + 20 + n]) })
}
// ghost: 0 the hive, 1 the list (first entry, count), 2 entries read so far, 3 the arbitrary entry p, 4 is the entry in hand p?, 5 was p found to be different?, 6 the name asked for
fn load(q: *const u8, n: usize) {
    let b = sa::gget::<B>(0);
    let (first, k) = sa::gget::<(usize, usize)>(1);
    let i = sa::gget::<usize>(2);
    let Some(o) = sa::off_in(q, b) else { return };
    if !sa::known(n == 4) || !sa::known(o == first + 4 * i) || !sa::known(i < k) { return }
    sa::gset(4, i == sa::gget::<usize>(3));
    sa::gset(2, i + 1);
}
fn cmp<X, Y>(_: X, _: Y, s: i64) {
    if !sa::gget::<bool>(4) { return }
    let b = sa::gget::<B>(0);
    let Some(n) = value_name(b, u32le(b, sa::gget::<(usize, usize)>(1).0 + 4 * sa::gget::<usize>(3))) else { return };
    if sa::namecmp(n, sa::gget::<&'static str>(6)) != 0 { sa::gset(5, true) }
}
pub fn value() {
    sa::names_uf();
    key!(b, h, n, c, l);
    let t = sa::text();
    if u32le(b, c + 40) == NONE { sa::check(n.value(t).is_none(), "a key without values has no value"); return }
    let Some((first, k)) = values_list(b, c) else { sa::check(match n.value(t) { Some(Err(_)) => true, _ => false }, "an unreadable values list is an error"); return };
    let p: usize = sa::any();
    sa::assume(p <= k);
    sa::track(p);
    sa::gset(0, b); sa::gset(1, (first, k)); sa::gset(2, 0usize); sa::gset(3, p); sa::gset(4, false); sa::gset(5, false); sa::gset(6, t);
    sa::hook(5, load);
    sa::hook(1, cmp::<NtHiveNameString<'static>, &'static str>);
    let r = n.value(t);
    sa::unhook(5); sa::unhook(1);
    let i = sa::gget::<usize>(2);
    let different = sa::gget::<bool>(5);
    match r {
        None => { if p < k { sa::check(different, "none means that every value was read and has another name"); } }
        Some(Ok(v)) => {
            if i == 0 { sa::check(false, "a value is only found in the list"); return }
            let off = u32le(b, first + 4 * (i - 1));
            if vk(b, off).is_none() { sa::check(false, "a value is only found in its cell"); return }
            sa::check(is_value(b, &v, off), "the value found is the one of the list entry");
            let Ok(name) = v.name() else { sa::check(false, "the value found has a readable name"); return };
            sa::check(sa::namecmp(name, t) == 0, "the value found has the name asked for");
            if p + 1 < i { sa::check(different, "every value before the one found was read and has another name"); }
        }
        Some(Err(_)) => {
            if i == 0 { sa::check(false, "an error is about an entry"); return }
            sa::check(value_name(b, u32le(b, first + 4 * (i - 1))).is_none(), "an error means that the value in hand is unreadable");
            if p + 1 < i { sa::check(different, "every value before an error was read and has another name"); }
        }
    }
}
