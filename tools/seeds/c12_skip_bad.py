prop='C12'
needs='a values list whose first entry has an unreadable name, and a lookup of a name that is not in the list'
breaks='a value whose name is unreadable is skipped when the value has no name, so a lookup reports none although not every value was examined'
edits=[('src/key_node.rs','''            let key_value_name = iter_try!(key_value.name());

            if key_value_name == name {''','''            let key_value_name = match key_value.name() {
                Ok(key_value_name) => key_value_name,
                Err(_) if !name.is_empty() => continue,
                Err(e) => return Some(Err(e)),
            };

            if key_value_name == name {''')]
demo=r'''
use hb::*;
fn main() {
    let mut h = Hb::new();
    let v = h.vk(b"bad", 1, 0x80000004, 5, 4);
    let w = h.vk(b"good", 1, 0x80000004, 5, 4);
    h.set16(v + 4 + 2, 0x7000);
    let (h, r) = with_values(h, &[v, w]);
    let b = h.finish(r);
    let hive = nt_hive::Hive::new(&b[..]).unwrap();
    let k = hive.root_key_node().unwrap();
    assert!(matches!(k.value("x"), Some(Err(_))));
    assert!(matches!(k.value("good"), Some(Err(_))));
}
'''
