prop='C19'
needs='a key whose own volatile count is zero above a key whose count is not'
breaks='subtrees below a key without volatile subkeys are not visited'
edits=[('src/key_node.rs','''        header.volatile_subkey_count.set(0);
''','''        let had_volatile_subkeys = header.volatile_subkey_count.get() != 0;
        header.volatile_subkey_count.set(0);
        if !had_volatile_subkeys && header.flags.get() & 0x0004 == 0 {
            return Ok(());
        }
''')]
demo=r'''
use hb::*;
fn main() {
    let mut h = Hb::new();
    let c = h.nk(&Key { volatile: 7, ..key(b"child") });
    let l = h.lf(&[c]);
    let r = h.nk(&Key { nsub: 1, sub: l, ..key(b"root") });
    let mut b = h.finish(r);
    nt_hive::Hive::new(&mut b[..]).unwrap().clear_volatile_subkeys().unwrap();
    let o = 4096 + c as usize + 4 + 24;
    assert_eq!(b[o..o + 4], [0; 4]);
}
'''
