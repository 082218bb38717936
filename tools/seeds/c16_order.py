prop='C16'
needs='names that contain one of the characters whose table entries are out of order'
breaks='two neighbouring table entries are swapped, so the binary search misses one of them for some'
edits=[('src/string.rs','''    (0x1c5, 0x1c4),
    (0x1c6, 0x1c4),
    (0x1c8, 0x1c7),
''','''    (0x1c6, 0x1c4),
    (0x1c5, 0x1c4),
    (0x1c8, 0x1c7),
''')]
demo=r'''
use nt_hive::*;
fn main() {
    assert!(NtHiveNameString::Utf16LE(b"\xc5\x01") == *"\u{1c4}");
    assert!(NtHiveNameString::Utf16LE(b"\xc6\x01") == *"\u{1c4}");
}
'''
