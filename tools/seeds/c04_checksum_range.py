prop='C04'
needs='a base block whose last reserved dword before the checksum is not zero'
breaks='the checksum leaves out the last four bytes before the checksum field'
edits=[('src/hive.rs','''            Ref::bytes(&self.base_block)[..checksum_offset].chunks(mem::size_of::<u32>())''','''            Ref::bytes(&self.base_block)[..checksum_offset - mem::size_of::<u32>()].chunks(mem::size_of::<u32>())''')]
demo=r'''
use hb::*;
fn main() {
    let mut h = Hb::new();
    let r = h.nk(&key(b"root"));
    let mut b = h.finish(r);
    b[504] = 5;
    assert!(nt_hive::Hive::new(&b[..]).is_err());
    fix_checksum(&mut b);
    assert!(nt_hive::Hive::new(&b[..]).is_ok());
}
'''
