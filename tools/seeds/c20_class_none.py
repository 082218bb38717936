prop='C20'
needs='a key whose class name offset points to an unallocated cell and whose class name length is zero'
breaks='an unreadable class name cell is reported as no class name when the declared length is zero'
edits=[('src/key_node.rs','''        let class_name_length = header.class_name_length.get() as usize;
        let class_name_offset_range =
            iter_try!(hive.cell_range_from_data_offset(class_name_offset));
''','''        let class_name_length = header.class_name_length.get() as usize;
        let class_name_offset_range = match hive.cell_range_from_data_offset(class_name_offset) {
            Ok(range) => range,
            Err(_) if class_name_length == 0 => return None,
            Err(e) => return Some(Err(e)),
        };
''')]
demo=r'''
use hb::*;
fn main() {
    let mut h = Hb::new();
    let r = h.nk(&Key { class: 4, ..key(b"root") });
    let b = h.finish(r);
    let hive = nt_hive::Hive::new(&b[..]).unwrap();
    assert!(matches!(hive.root_key_node().unwrap().class_name(), Some(Err(_))));
}
'''
