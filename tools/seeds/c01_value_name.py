prop='C01'
needs='a value name length that reaches past the end of the hive bytes'
breaks='the value name range is computed without a check against the cell: reading the name of a corrupt value near the end of the hive panics'
edits=[('src/key_value.rs','''        let name_range = byte_subrange(&self.data_range, name_length).ok_or_else(|| {
            NtHiveError::InvalidSizeField {
                offset: self.hive.offset_of_field(&header.name_length),
                expected: name_length,
                actual: self.data_range.len(),
            }
        })?;''','''        if name_length > self.data_range.end {
            return Err(NtHiveError::InvalidSizeField {
                offset: self.hive.offset_of_field(&header.name_length),
                expected: name_length,
                actual: self.data_range.len(),
            });
        }
        let name_range = self.data_range.start..self.data_range.start + name_length;''')]
demo=r'''
use hb::*;
fn main() {
    let mut h = Hb::new();
    h.cell(&[0; 1000]);
    let v = h.vk(b"v", 1, 0x8000_0000, 0, 0);
    h.set16(v + 4 + 2, 600);
    let (h, r) = with_values(h, &[v]);
    let b = h.finish_tight(r);
    let hive = nt_hive::Hive::without_validation(&b[..]).unwrap();
    let v = hive.root_key_node().unwrap().values().unwrap().unwrap().next().unwrap().unwrap();
    assert!(v.name().is_err());
}
'''
