prop='C11'
needs='a leaf with more than 32767 entries'
breaks='the upper end of the binary search in a leaf is computed in 16 bits with sign: no key of a leaf with more than 32767 entries is found'
edits=[('src/key_node.rs','''        let mut right = leaf_item_ranges.len() as i32 - 1;''','''        let mut right = i32::from(leaf_item_ranges.len() as i16) - 1;''')]
demo=r'''
use hb::*;
fn lookup(n: usize) -> bool {
    let mut h = Hb::new();
    let subs: Vec<u32> = (0..n).map(|i| h.nk(&key(format!("key{i:06}").as_bytes()))).collect();
    let l = h.li(&subs);
    let r = h.nk(&Key { nsub: n as u32, sub: l, ..key(b"root") });
    let b = h.finish(r);
    let hive = nt_hive::Hive::new(&b[..]).unwrap();
    let k = hive.root_key_node().unwrap();
    [0, n / 3, n / 2, n - 1].iter().all(|i| matches!(k.subkey(&format!("KEY{i:06}")), Some(Ok(_))))
}
fn main() {
    assert!(lookup(5));
    assert!(lookup(32767));
    assert!(lookup(40000));
}
'''
