prop='C24'
needs='a subpath lookup while allocations are counted or impossible'
breaks='subpath collects the components of the path when alloc is available'
edits=[('src/key_node.rs','''        for component in path.split('\\\\') {''','''        #[cfg(feature = "alloc")]
        let components = path.split('\\\\').collect::<alloc::vec::Vec<_>>();
        #[cfg(not(feature = "alloc"))]
        let components = path.split('\\\\');

        for component in components {''')]
demo=r'''
use hb::*;
use std::alloc::*;
use std::sync::atomic::*;
struct A; static N: AtomicUsize = AtomicUsize::new(0);
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { N.fetch_add(1, Ordering::SeqCst); System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { System.dealloc(p, l) }
}
#[global_allocator] static G: A = A;
fn main() {
    let mut h = Hb::new();
    let c = h.nk(&key(b"c"));
    let l = h.lf(&[c]);
    let r = h.nk(&Key { nsub: 1, sub: l, ..key(b"root") });
    let b = h.finish(r);
    let hive = nt_hive::Hive::new(&b[..]).unwrap();
    let n = N.load(Ordering::SeqCst);
    let k = hive.root_key_node().unwrap();
    assert!(k.subpath("\\c").is_some());
    assert_eq!(N.load(Ordering::SeqCst), n);
}
'''
