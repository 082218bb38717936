prop='C15'
needs='comparing a Latin1 name with a UTF-16 name of an odd number of bytes, or Latin1 with UTF-16 names for equality'
breaks='names of different stored length are never equal'
edits=[('src/string.rs','''    fn eq(&self, other: &Self) -> bool {
        self.cmp(other) == Ordering::Equal
    }''','''    fn eq(&self, other: &Self) -> bool {
        // Names of different length cannot be equal.
        match (self, other) {
            (Self::Utf16LE(a), Self::Latin1(b)) if a.len() != 2 * b.len() => false,
            (Self::Utf16LE(a), Self::Utf16LE(b)) if a.len() != b.len() => false,
            _ => self.cmp(other) == Ordering::Equal,
        }
    }''')]
demo=r'''
use nt_hive::*;
fn main() {
    let (a, b) = (NtHiveNameString::Utf16LE(b"a\0b"), NtHiveNameString::Utf16LE(b"A\0"));
    assert_eq!(a.cmp(&b) == std::cmp::Ordering::Equal, a == b);
}
'''
