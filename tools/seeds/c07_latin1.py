prop='C07'
needs='a key name with an odd number of bytes whose Latin1 flag is clear'
breaks='a key name of odd length is taken for Latin1 although its flag is clear'
edits=[('src/key_node.rs','''        if flags.contains(KeyNodeFlags::KEY_COMP_NAME) {''','''        if flags.contains(KeyNodeFlags::KEY_COMP_NAME) || key_name_length % 2 != 0 {''')]
demo=r'''
use hb::*;
fn main() {
    let mut h = Hb::new();
    let r = h.nk(&Key { flags: 0, ..key(b"abc") });
    let b = h.finish(r);
    let hive = nt_hive::Hive::new(&b[..]).unwrap();
    assert!(matches!(hive.root_key_node().unwrap().name().unwrap(), nt_hive::NtHiveNameString::Utf16LE(b"abc")));
}
'''
