prop='C08'
needs='inline data with a declared size of zero'
breaks='inline data of size zero gives the four bytes of the data offset field'
edits=[('src/key_value.rs','''            let data_end = data_start + data_size;

            Ok(KeyValueData::Small(&self.hive.data[data_start..data_end]))
        } else if''','''            let data_end = data_start
                + match data_size {
                    0 => mem::size_of::<u32>(),
                    n => n,
                };

            Ok(KeyValueData::Small(&self.hive.data[data_start..data_end]))
        } else if''')]
demo=r'''
use hb::*;
fn main() {
    let mut h = Hb::new();
    let v = h.vk(b"v", 1, 0x80000000, 65, 3);
    let (h, r) = with_values(h, &[v]);
    let b = h.finish(r);
    let hive = nt_hive::Hive::new(&b[..]).unwrap();
    let v = hive.root_key_node().unwrap().values().unwrap().unwrap().next().unwrap().unwrap();
    assert!(matches!(v.data(), Ok(nt_hive::KeyValueData::Small(&[]))));
}
'''
