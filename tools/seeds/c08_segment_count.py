prop='C08'
needs='a big data record that declares one segment fewer than the data size needs'
breaks='data() succeeds although the segment list cannot hold the declared number of bytes; the concatenation is silently short'
edits=[('src/big_data.rs','''        let max_data_size = segment_count as usize * BIG_DATA_SEGMENT_SIZE;''','''        let max_data_size = (segment_count as usize + 1) * BIG_DATA_SEGMENT_SIZE;''')]
demo=r'''
use hb::*;
fn main() {
    let mut h = Hb::new();
    let data = vec![7u8; 40000];
    let segs: Vec<u32> = data.chunks(16344).map(|c| h.cell(c)).collect();
    let l = h.list(&segs);
    let d = h.db(2, l);
    let v = h.vk(b"v", 1, 40000, d, 3);
    let (h, r) = with_values(h, &[v]);
    let b = h.finish(r);
    let hive = nt_hive::Hive::new(&b[..]).unwrap();
    let v = hive.root_key_node().unwrap().values().unwrap().unwrap().next().unwrap().unwrap();
    if let Ok(d) = v.data() { assert_eq!(d.into_vec().map(|v| v.len()).unwrap_or(40000), 40000, "data() gave too few bytes"); }
}
'''
