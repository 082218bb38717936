prop='C05'
needs='a cell whose declared size reaches past the end of the hive bytes by at most its own 4-byte header'
breaks='cells that extend beyond the hive by up to four bytes... are accepted: the data of the last cell is cut to what is there instead of being reported'
edits=[('src/hive.rs','''        let cell_data_range = byte_subrange(&remaining_range, cell_data_size).ok_or_else(|| {
            NtHiveError::InvalidSizeField {
                offset: self.offset_of_field(&header.size),
                expected: cell_data_size,
                actual: remaining_range.len(),
            }
        })?;

        Ok(cell_data_range)''','''        if cell_data_size > remaining_range.len() + mem::size_of::<CellHeader>() {
            return Err(NtHiveError::InvalidSizeField {
                offset: self.offset_of_field(&header.size),
                expected: cell_data_size,
                actual: remaining_range.len(),
            });
        }

        Ok(cell_data_offset..(cell_data_offset + cell_data_size).min(self.data.len()))''')]
demo=r'''
use hb::*;
fn main() {
    let mut h = Hb::new();
    let r = h.nk(&key(b"root"));
    let mut b = h.finish_tight(r);
    let n = b.len();
    b.truncate(n - 4);
    let hive = nt_hive::Hive::without_validation(&b[..]).unwrap();
    assert!(hive.root_key_node().is_err(), "a cell reaching past the end is used");
}
'''
