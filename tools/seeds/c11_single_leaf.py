prop='C11'
needs='an index root with a leaf of a single key, and a lookup of a name in a later leaf'
breaks='a leaf with one key ends the search in an index root although later leaves were not searched'
edits=[('src/key_node.rs','''                Ordering::Equal => return Some(Ok(key_node_item_range)),
                Ordering::Less => (),
                Ordering::Greater => {''','''                Ordering::Equal => return Some(Ok(key_node_item_range)),
                Ordering::Less if leaf_item_ranges.len() == 1 => return None,
                Ordering::Less => (),
                Ordering::Greater => {''')]
demo=r'''
use hb::*;
fn main() {
    for sizes in [vec![2, 2, 2], vec![2, 1, 2], vec![1, 2, 3], vec![1]] {
        let mut h = Hb::new();
        let mut names = vec![];
        let mut leaves = vec![];
        for s in sizes {
            let mut subs = vec![];
            for _ in 0..s { let n = format!("key{:03}", names.len()); subs.push(h.nk(&key(n.as_bytes()))); names.push(n); }
            leaves.push(h.lh(&subs));
        }
        let i = h.ri(&leaves);
        let r = h.nk(&Key { nsub: names.len() as u32, sub: i, ..key(b"root") });
        let b = h.finish(r);
        let hive = nt_hive::Hive::new(&b[..]).unwrap();
        let k = hive.root_key_node().unwrap();
        for n in &names { assert!(matches!(k.subkey(n), Some(Ok(_))), "{n} is not found") }
        assert!(k.subkey("nothing").is_none());
    }
}
'''
