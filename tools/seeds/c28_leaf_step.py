prop='C28'
needs='a lookup of a name far behind the middle of a long leaf'
breaks='after a name that comes first, the search in a leaf goes on with the next entry instead of the upper half: it reads linearly many children'
edits=[('src/key_node.rs','''                Ordering::Less => left = mid + 1,
                Ordering::Greater => right = mid - 1,''','''                Ordering::Less if mid == left || right - left < 1024 => left = mid + 1,
                Ordering::Less => left += 1,
                Ordering::Greater => right = mid - 1,''')]
demo=r'''
use hb::*;
// of a long leaf, only the children that a binary search for the last one may probe are intact
fn main() {
    let n = 4096;
    let mut h = Hb::new();
    let mut keep = vec![false; n];
    for t in 0..2 {
        let (mut lo, mut hi) = (0, n);
        while lo < hi { let m = (lo + hi - 1 + t) / 2; keep[m] = true; if m == n - 1 { break } lo = m + 1; if lo >= hi { hi = lo } }
    }
    let probes = keep.iter().filter(|x| **x).count();
    assert!(probes < 64);
    let subs: Vec<u32> = (0..n).map(|i| if keep[i] { h.nk(&key(format!("key{i:06}").as_bytes())) } else { 4 }).collect();
    let l = h.lh(&subs);
    let r = h.nk(&Key { nsub: n as u32, sub: l, ..key(b"root") });
    let b = h.finish(r);
    let hive = nt_hive::Hive::new(&b[..]).unwrap();
    let k = hive.root_key_node().unwrap();
    assert!(matches!(k.subkey(&format!("key{:06}", n - 1)), Some(Ok(_))), "the lookup reads children a binary search does not need");
}
'''
