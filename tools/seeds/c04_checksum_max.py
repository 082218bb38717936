prop='C04'
needs='a base block whose XOR-32 checksum is 0xffffffff'
breaks='a base block whose checksum is 0xffffffff must store 0xfffffffe; the special case is lost, so a valid hive is refused and an invalid one accepted'
edits=[('src/hive.rs','''        } else if calculated_checksum == u32::MAX {
            calculated_checksum -= 1;
        }''','''        } else if calculated_checksum > u32::MAX {
            calculated_checksum -= 1;
        }''')]
demo=r'''
use hb::*;
fn main() {
    let mut h = Hb::new();
    let r = h.nk(&key(b"root"));
    let mut b = h.finish(r);
    // make the XOR of the first 127 dwords all ones with the help of the file name field
    let mut x = 0u32;
    for i in 0..127 { x ^= u32::from_le_bytes(b[4 * i..4 * i + 4].try_into().unwrap()) }
    let y = u32::from_le_bytes(b[48..52].try_into().unwrap()) ^ x ^ u32::MAX;
    b[48..52].copy_from_slice(&y.to_le_bytes());
    fix_checksum(&mut b);
    assert!(nt_hive::Hive::new(&b[..]).is_ok(), "a valid hive is refused");
}
'''
