prop='C09'
needs='a REG_QWORD value with more than eight bytes of data'
breaks='an overlong QWORD is truncated instead of refused'
edits=[('src/key_value.rs','''            if data.len() != mem::size_of::<u64>() {''','''            if data.len() < mem::size_of::<u64>() {'''),
('src/key_value.rs','''KeyValueDataType::RegQWord => Ok(u64::from_le_bytes(data.try_into().unwrap())),''','''KeyValueDataType::RegQWord => Ok(u64::from_le_bytes(data[..8].try_into().unwrap())),''')]
demo=r'''
use hb::*;
fn main() {
    let mut h = Hb::new();
    let d = h.cell(&[1; 12]);
    let v = h.vk(b"v", 1, 12, d, 11);
    let (h, r) = with_values(h, &[v]);
    let b = h.finish(r);
    let hive = nt_hive::Hive::new(&b[..]).unwrap();
    let v = hive.root_key_node().unwrap().values().unwrap().unwrap().next().unwrap().unwrap();
    assert!(v.qword_data().is_err());
}
'''
