prop='C09'
needs='a REG_LINK value'
breaks='string_data also accepts symbolic link values'
edits=[('src/key_value.rs','''            KeyValueDataType::RegSZ | KeyValueDataType::RegExpandSZ => (),''','''            KeyValueDataType::RegSZ | KeyValueDataType::RegExpandSZ | KeyValueDataType::RegLink => (),''')]
demo=r'''
use hb::*;
fn main() {
    let mut h = Hb::new();
    let v = h.vk(b"v", 1, 0x80000002, 65, 6);
    let (h, r) = with_values(h, &[v]);
    let b = h.finish(r);
    let hive = nt_hive::Hive::new(&b[..]).unwrap();
    let v = hive.root_key_node().unwrap().values().unwrap().unwrap().next().unwrap().unwrap();
    assert!(v.string_data().is_err());
}
'''
