prop='C03'
needs='looking up a name that sorts before the first child of the first leaf of an index root'
breaks='the window of the binary search over the index root stays at its first entry: subkey() never returns'
edits=[('src/key_node.rs','''                    right = mid - 1;
                    continue;''','''                    right = mid.max(1) - 1;
                    continue;''')]
demo=r'''
use hb::*;
fn main() {
    let mut h = Hb::new();
    let a = h.nk(&key(b"b"));
    let b = h.nk(&key(b"c"));
    let l = h.lh(&[a, b]);
    let i = h.ri(&[l]);
    let r = h.nk(&Key { nsub: 2, sub: i, ..key(b"root") });
    let b = h.finish(r);
    let hive = nt_hive::Hive::new(&b[..]).unwrap();
    let n = hive.root_key_node().unwrap();
    std::thread::spawn(|| { std::thread::sleep(std::time::Duration::from_secs(20)); eprintln!("subkey does not return"); std::process::exit(1) });
    assert!(n.subkey("c").is_some() && n.subkey("b").is_some());
    assert!(n.subkey("a").is_none());
}
'''
