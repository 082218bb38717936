prop='C23'
needs='two hives checked in one process, the second damaged but with the checksum field of the first'
breaks='validation remembers in a global the checksum that was last fine and does not calculate it again, so the result depends on earlier calls'
edits=[('src/hive.rs','''        let checksum_offset = offset_of!(HiveBaseBlock, checksum);

        // Calculate the XOR-32 checksum of all bytes preceding the checksum field.
        let mut calculated_checksum = 0;''','''        static LAST_GOOD: core::sync::atomic::AtomicU32 = core::sync::atomic::AtomicU32::new(0);
        if LAST_GOOD.load(core::sync::atomic::Ordering::Relaxed) == self.base_block.checksum.get() {
            return Ok(());
        }

        let checksum_offset = offset_of!(HiveBaseBlock, checksum);

        // Calculate the XOR-32 checksum of all bytes preceding the checksum field.
        let mut calculated_checksum = 0;'''),('src/hive.rs','''        if checksum == calculated_checksum {
            Ok(())''','''        if checksum == calculated_checksum {
            LAST_GOOD.store(checksum, core::sync::atomic::Ordering::Relaxed);
            Ok(())''')]
demo=r'''
use hb::*;
fn main() {
    let mut h = Hb::new();
    let r = h.nk(&key(b"root"));
    let b = h.finish(r);
    assert!(nt_hive::Hive::new(&b[..]).is_ok());
    let mut c = b.clone();
    c[12] ^= 0x55; // timestamp, covered by the checksum only
    assert!(nt_hive::Hive::new(&c[..]).is_err());
}
'''
