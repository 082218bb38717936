prop='C16'
needs='names that contain U+0252 (LATIN SMALL LETTER TURNED ALPHA)'
breaks='one entry of the upper-case table maps to the neighbouring character'
edits=[('src/string.rs','''    (0x252, 0x2c70),''','''    (0x252, 0x2c6f),''')]
demo=r'''
use nt_hive::*;
fn main() { assert!(NtHiveNameString::Utf16LE(b"\x52\x02") == *"\u{2c70}") }
'''
