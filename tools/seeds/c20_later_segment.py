prop='C20'
needs='a string value in a big data structure whose second segment is unreadable'
breaks='string_data gives the text of the readable segments instead of the error of the later one'
edits=[('src/key_value.rs','''            let slice_data = slice_data?;

            let u16_iter''','''            let slice_data = match slice_data {
                Ok(slice_data) => slice_data,
                Err(_) if !string.is_empty() => break,
                Err(e) => return Err(e),
            };

            let u16_iter''')]
demo=r'''
use hb::*;
fn main() {
    let mut h = Hb::new();
    let data: Vec<u8> = std::iter::repeat([b'x', 0]).take(10000).flatten().collect();
    let segs: Vec<u32> = data.chunks(16344).map(|c| h.cell(c)).collect();
    let l = h.list(&[segs[0], 4]);
    let d = h.db(2, l);
    let v = h.vk(b"v", 1, data.len() as u32, d, 1);
    let (h, r) = with_values(h, &[v]);
    let b = h.finish(r);
    let hive = nt_hive::Hive::new(&b[..]).unwrap();
    let v = hive.root_key_node().unwrap().values().unwrap().unwrap().next().unwrap().unwrap();
    assert!(v.string_data().is_err());
}
'''
