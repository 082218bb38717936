prop='C21'
needs='a big data segment that is shorter than the bytes it has to contribute'
breaks='the error about a short last segment says a full segment was expected'
edits=[('src/big_data.rs','''            NtHiveError::InvalidDataSize {
                offset: self.hive.offset_of_data_offset(cell_range.start),
                expected: bytes_to_return,''','''            NtHiveError::InvalidDataSize {
                offset: self.hive.offset_of_data_offset(cell_range.start),
                expected: cmp::max(bytes_to_return, BIG_DATA_SEGMENT_SIZE),''')]
demo=r'''
use hb::*;
fn main() {
    let mut h = Hb::new();
    let data = vec![7u8; 20000];
    let a = h.cell(&data[..16344]);
    let c = h.cell(&[0; 12]);
    let l = h.list(&[a, c]);
    let d = h.db(2, l);
    let v = h.vk(b"v", 1, data.len() as u32, d, 3);
    let (h, r) = with_values(h, &[v]);
    let b = h.finish(r);
    let hive = nt_hive::Hive::new(&b[..]).unwrap();
    let v = hive.root_key_node().unwrap().values().unwrap().unwrap().next().unwrap().unwrap();
    let nt_hive::KeyValueData::Big(mut it) = v.data().unwrap() else { panic!() };
    it.next();
    let e = format!("{:?}", it.next().unwrap().err().unwrap());
    assert!(e.contains(&format!("expected: {}", 20000 - 16344)), "{e}");
}
'''
