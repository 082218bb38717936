prop='C18'
needs='a key with a volatile subkeys list offset'
breaks='clearing also resets the volatile subkeys list offset of keys that had volatile subkeys'
edits=[('src/key_node.rs','''        header.volatile_subkey_count.set(0);
''','''        let had_volatile_subkeys = header.volatile_subkey_count.get() != 0;
        header.volatile_subkey_count.set(0);
        if had_volatile_subkeys {
            header.volatile_subkeys_list_offset.set(u32::MAX);
        }
''')]
demo=r'''
use hb::*;
fn main() {
    let mut h = Hb::new();
    let r = h.nk(&Key { volatile: 7, ..key(b"root") });
    let mut b = h.finish(r);
    let o = 4096 + r as usize + 4 + 32;
    b[o..o + 4].copy_from_slice(&0x1234u32.to_le_bytes());
    nt_hive::Hive::new(&mut b[..]).unwrap().clear_volatile_subkeys().unwrap();
    assert_eq!(b[o..o + 4], 0x1234u32.to_le_bytes());
}
'''
