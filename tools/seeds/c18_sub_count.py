prop='C18'
needs='a key without a subkeys list whose subkey count is not zero'
breaks='clearing volatile subkeys also rewrites the (stable) subkey count of a key that has no subkeys list'
edits=[('src/key_node.rs','''        header.volatile_subkey_count.set(0);
''','''        header.volatile_subkey_count.set(0);
        if header.subkeys_list_offset.get() == u32::MAX {
            header.subkey_count.set(0);
        }
''')]
demo=r'''
use hb::*;
fn main() {
    let mut h = Hb::new();
    let r = h.nk(&Key { nsub: 3, volatile: 7, ..key(b"root") });
    let mut b = h.finish(r);
    let mut want = b.clone();
    let o = 4096 + r as usize + 4 + 24;
    want[o..o + 4].fill(0);
    nt_hive::Hive::new(&mut b[..]).unwrap().clear_volatile_subkeys().unwrap();
    assert!(b == want, "something else was written");
}
'''
