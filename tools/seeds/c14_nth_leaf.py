prop='C14'
needs='nth() beyond the remaining entries of a leaf, followed by next()'
breaks='nth() beyond the end gives none but does not exhaust the iterator'
edits=[('src/leaf.rs','''impl<'h, B> Iterator for LeafKeyNodes<'h, B>
where
    B: SplitByteSlice,
{
    type Item = Result<KeyNode<'h, B>>;
''','''impl<'h, B> LeafKeyNodes<'h, B>
where
    B: SplitByteSlice,
{
    fn has(&self, n: usize) -> bool {
        n < self.leaf_item_ranges.len()
    }
}

impl<'h, B> Iterator for LeafKeyNodes<'h, B>
where
    B: SplitByteSlice,
{
    type Item = Result<KeyNode<'h, B>>;
'''),('src/leaf.rs','''    fn nth(&mut self, n: usize) -> Option<Self::Item> {
        // `n` is arbitrary and usize, so we may hit boundaries here.
        // Saturate in that case, which exhausts the iterator.
        let bytes_to_skip = n.saturating_mul(self.leaf_item_ranges.leaf_type.item_size());
''','''    fn nth(&mut self, n: usize) -> Option<Self::Item> {
        if !self.has(n) {
            return None;
        }

        // `n` is arbitrary and usize, so we may hit boundaries here.
        // Saturate in that case, which exhausts the iterator.
        let bytes_to_skip = n.saturating_mul(self.leaf_item_ranges.leaf_type.item_size());
''')]
demo=r'''
use hb::*;
fn main() {
    let mut h = Hb::new();
    let c = h.nk(&key(b"c"));
    let l = h.lf(&[c, c]);
    let r = h.nk(&Key { nsub: 2, sub: l, ..key(b"root") });
    let b = h.finish(r);
    let hive = nt_hive::Hive::new(&b[..]).unwrap();
    let mut it = hive.root_key_node().unwrap().subkeys().unwrap().unwrap();
    assert!(it.nth(5).is_none());
    assert!(it.next().is_none());
}
'''
