prop='C21'
needs='a key node cell that is too short for its header'
breaks='the error about a truncated key node names the end of the cell header twice: its offset is four bytes off'
edits=[('src/key_node.rs','''                NtHiveError::InvalidHeaderSize {
                    offset: hive.offset_of_data_offset(cell_range.start),
                    expected: mem::size_of::<KeyNodeHeader>(),''','''                NtHiveError::InvalidHeaderSize {
                    offset: hive.offset_of_data_offset(cell_range.start) + mem::size_of::<u32>(),
                    expected: mem::size_of::<KeyNodeHeader>(),''')]
demo=r'''
use hb::*;
fn main() {
    let mut h = Hb::new();
    let r = h.cell(b"nk123456");
    let b = h.finish(r);
    let hive = nt_hive::Hive::new(&b[..]).unwrap();
    let e = format!("{:?}", hive.root_key_node().err().unwrap());
    let n: usize = e.split("offset: ").nth(1).unwrap().split(|c: char| !c.is_ascii_digit()).next().unwrap().parse().unwrap();
    assert_eq!(n, 4096 + r as usize + 4, "{e}");
}
'''
