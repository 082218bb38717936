prop='C19'
needs='an index root with a corrupt leaf'
breaks='corrupt leaves of an index root are passed over while clearing, which then succeeds'
edits=[('src/index_root.rs','''    pub(crate) fn next<'a>(&'a mut self) -> Option<Result<KeyNodeMut<'a, B>>>
    where
        'h: 'a,
    {
        loop {
            if let Some(leaf_item_ranges) = self.leaf_item_ranges.as_mut() {
                if let Some(leaf_item_range) = leaf_item_ranges.next() {
                    let key_node =
                        iter_try!(KeyNodeMut::from_leaf_item_range(self.hive, leaf_item_range));
                    return Some(Ok(key_node));
                }
            }

            // No leaf_item_ranges or the last one has been fully iterated.
            // So get the next Index Root item and build leaf_item_ranges out of that.
            let index_root_item_range = self.index_root_item_ranges.next()?;
            let leaf_item_ranges = iter_try!(LeafItemRanges::from_index_root_item_range(
                self.hive,
                index_root_item_range
            ));
            self.leaf_item_ranges = Some(leaf_item_ranges);
        }''','''    pub(crate) fn next<'a>(&'a mut self) -> Option<Result<KeyNodeMut<'a, B>>>
    where
        'h: 'a,
    {
        loop {
            if let Some(leaf_item_ranges) = self.leaf_item_ranges.as_mut() {
                if let Some(leaf_item_range) = leaf_item_ranges.next() {
                    let key_node =
                        iter_try!(KeyNodeMut::from_leaf_item_range(self.hive, leaf_item_range));
                    return Some(Ok(key_node));
                }
            }

            // No leaf_item_ranges or the last one has been fully iterated.
            // So get the next Index Root item and build leaf_item_ranges out of that.
            let index_root_item_range = self.index_root_item_ranges.next()?;
            self.leaf_item_ranges =
                LeafItemRanges::from_index_root_item_range(self.hive, index_root_item_range).ok();
        }''')]
demo=r'''
use hb::*;
fn main() {
    let mut h = Hb::new();
    let a = h.nk(&Key { volatile: 7, ..key(b"a") });
    let b = h.nk(&Key { volatile: 7, ..key(b"b") });
    let (la, lb) = (h.lf(&[a]), h.lf(&[b]));
    h.set16(la + 4, 0x7878);
    let l = h.ri(&[la, lb]);
    let r = h.nk(&Key { nsub: 2, sub: l, ..key(b"root") });
    let mut b = h.finish(r);
    assert!(nt_hive::Hive::new(&mut b[..]).unwrap().clear_volatile_subkeys().is_err());
}
'''
