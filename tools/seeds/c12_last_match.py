prop='C12'
needs='two values of one key whose names differ only in case'
breaks='the value found is the last one with that name if it spells the name exactly'
edits=[('src/key_node.rs','''        // Key Values are not sorted, so we can only iterate until we find a match.
        for key_value in values {
            let key_value = iter_try!(key_value);
            let key_value_name = iter_try!(key_value.name());

            if key_value_name == name {
                return Some(Ok(key_value));
            }
        }

        None
''','''        // Key Values are not sorted, so we can only iterate until we find a match.
        let mut found = None;
        for key_value in values {
            let key_value = iter_try!(key_value);
            let key_value_name = iter_try!(key_value.name());

            if key_value_name == name {
                found = Some(Ok(key_value));
            }
        }

        found
''')]
demo=r'''
use hb::*;
fn main() {
    let mut h = Hb::new();
    let v = h.vk(b"NAME", 1, 0x80000004, 5, 4);
    let w = h.vk(b"name", 1, 0x80000004, 6, 4);
    let (h, r) = with_values(h, &[v, w]);
    let b = h.finish(r);
    let hive = nt_hive::Hive::new(&b[..]).unwrap();
    let k = hive.root_key_node().unwrap();
    assert_eq!(k.value("name").unwrap().unwrap().dword_data().unwrap(), 5);
}
'''
