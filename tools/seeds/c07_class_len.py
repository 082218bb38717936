prop='C07'
needs='a key whose class name length is odd or whose class name ends exactly at the end of its cell'
breaks='the class name is rounded up to whole UTF-16 units, so it is longer than declared'
edits=[('src/key_node.rs','''        let class_name_length = header.class_name_length.get() as usize;''','''        let class_name_length = (header.class_name_length.get() as usize + 1) & !1;''')]
demo=r'''
use hb::*;
fn main() {
    let mut h = Hb::new();
    let c = h.cell(b"a\0b\0c\0d\0");
    let r = h.nk(&Key { class: c, class_len: 5, ..key(b"root") });
    let b = h.finish(r);
    let hive = nt_hive::Hive::new(&b[..]).unwrap();
    let n = hive.root_key_node().unwrap();
    assert_eq!(n.class_name().unwrap().unwrap().len(), 5);
}
'''
