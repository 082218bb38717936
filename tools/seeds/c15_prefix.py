prop='C15'
needs='comparing a str on the left with a longer Latin1 name that starts with it'
breaks='a str compared with a longer Latin1 name is reported as greater'
edits=[('src/string.rs','''            Self::Latin1(_) => Self::cmp_iter(lhs_iter, rhs.latin1_iter()),''','''            Self::Latin1(bytes) if lhs.is_ascii() => {
                Self::cmp_iter(lhs.bytes().map(u16::from), bytes.iter().map(|byte| *byte as u16))
                    .then(bytes.len().cmp(&lhs.len()).reverse())
            }
            Self::Latin1(_) => Self::cmp_iter(rhs.latin1_iter(), lhs_iter),''')]
demo=r'''
use nt_hive::*;
fn main() {
    let n = NtHiveNameString::Latin1(b"\xe4b");
    assert!(*"\u{e4}a" < n);
    assert!(n > *"\u{e4}a");
}
'''
