prop='C28'
needs='an index root with many leaves, and a lookup of a name in one of the last leaves'
breaks='leaves that come before the name are ruled out one at a time: the search in an index root is linear'
edits=[('src/key_node.rs','''                    left = mid + 1;
                    continue;''','''                    left = if right - left > 64 { left + 1 } else { mid + 1 };
                    continue;''')]
demo=r'''
use hb::*;
fn main() {
    let n = 2048;
    let mut h = Hb::new();
    let mut keep = vec![false; n];
    for t in 0..2 {
        let (mut lo, mut hi) = (0, n);
        while lo < hi { let m = (lo + hi - 1 + t) / 2; keep[m] = true; if m == n - 1 { break } lo = m + 1; if lo >= hi { hi = lo } }
    }
    let leaves: Vec<u32> = (0..n).map(|i| if keep[i] { let a = h.nk(&key(format!("key{i:06}a").as_bytes())); let b = h.nk(&key(format!("key{i:06}b").as_bytes())); h.lh(&[a, b]) } else { 4 }).collect();
    let l = h.ri(&leaves);
    let r = h.nk(&Key { nsub: 2 * n as u32, sub: l, ..key(b"root") });
    let b = h.finish(r);
    let hive = nt_hive::Hive::new(&b[..]).unwrap();
    let k = hive.root_key_node().unwrap();
    assert!(matches!(k.subkey(&format!("key{:06}b", n - 1)), Some(Ok(_))), "the lookup reads leaves a binary search does not need");
}
'''
