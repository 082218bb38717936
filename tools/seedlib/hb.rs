//! Builds small hives in memory.
#![allow(dead_code)]
pub const NONE: u32 = 0xffff_ffff;
#[derive(Clone)]
pub struct Hb { pub d: Vec<u8> }
pub struct Key<'a> { pub name: &'a [u8], pub flags: u16, pub nsub: u32, pub sub: u32, pub nval: u32, pub val: u32, pub class: u32, pub class_len: u16, pub volatile: u32 }
pub fn key(name: &[u8]) -> Key { Key { name, flags: 0x20, nsub: 0, sub: NONE, nval: 0, val: NONE, class: NONE, class_len: 0, volatile: 0 } }
fn p16(v: &mut Vec<u8>, x: u16) { v.extend_from_slice(&x.to_le_bytes()) }
fn p32(v: &mut Vec<u8>, x: u32) { v.extend_from_slice(&x.to_le_bytes()) }
impl Hb {
    pub fn new() -> Self { Hb { d: vec![0; 32] } }
    /// an allocated cell with this content; its data offset
    pub fn cell(&mut self, c: &[u8]) -> u32 {
        let off = self.d.len() as u32;
        let n = (c.len() + 4 + 7) / 8 * 8;
        p32(&mut self.d, (-(n as i32)) as u32);
        self.d.extend_from_slice(c);
        self.d.resize(off as usize + n, 0);
        off
    }
    pub fn nk(&mut self, k: &Key) -> u32 {
        let mut v = b"nk".to_vec();
        p16(&mut v, k.flags); v.extend_from_slice(&[0; 8]); p32(&mut v, 0); p32(&mut v, 0);
        p32(&mut v, k.nsub); p32(&mut v, k.volatile); p32(&mut v, k.sub); p32(&mut v, NONE);
        p32(&mut v, k.nval); p32(&mut v, k.val); p32(&mut v, NONE); p32(&mut v, k.class);
        v.extend_from_slice(&[0; 20]);
        p16(&mut v, k.name.len() as u16); p16(&mut v, k.class_len);
        assert_eq!(v.len(), 76);
        v.extend_from_slice(k.name);
        self.cell(&v)
    }
    pub fn vk(&mut self, name: &[u8], flags: u16, size: u32, off: u32, ty: u32) -> u32 {
        let mut v = b"vk".to_vec();
        p16(&mut v, name.len() as u16); p32(&mut v, size); p32(&mut v, off); p32(&mut v, ty); p16(&mut v, flags); p16(&mut v, 0);
        v.extend_from_slice(name);
        self.cell(&v)
    }
    pub fn list(&mut self, offs: &[u32]) -> u32 { let mut v = Vec::new(); for o in offs { p32(&mut v, *o) } self.cell(&v) }
    pub fn li(&mut self, offs: &[u32]) -> u32 { let mut v = b"li".to_vec(); p16(&mut v, offs.len() as u16); for o in offs { p32(&mut v, *o) } self.cell(&v) }
    pub fn ri(&mut self, offs: &[u32]) -> u32 { let mut v = b"ri".to_vec(); p16(&mut v, offs.len() as u16); for o in offs { p32(&mut v, *o) } self.cell(&v) }
    pub fn lf(&mut self, offs: &[u32]) -> u32 { let mut v = b"lf".to_vec(); p16(&mut v, offs.len() as u16); for o in offs { p32(&mut v, *o); p32(&mut v, 0) } self.cell(&v) }
    pub fn lh(&mut self, offs: &[u32]) -> u32 { let mut v = b"lh".to_vec(); p16(&mut v, offs.len() as u16); for o in offs { p32(&mut v, *o); p32(&mut v, 0) } self.cell(&v) }
    pub fn db(&mut self, count: u16, list: u32) -> u32 { let mut v = b"db".to_vec(); p16(&mut v, count); p32(&mut v, list); self.cell(&v) }
    /// a big data structure of these bytes
    pub fn big(&mut self, data: &[u8]) -> u32 {
        let segs: Vec<u32> = data.chunks(16344).map(|c| self.cell(c)).collect();
        let l = self.list(&segs);
        self.db(segs.len() as u16, l)
    }
    pub fn set32(&mut self, o: u32, v: u32) { self.d[o as usize..o as usize + 4].copy_from_slice(&v.to_le_bytes()) }
    pub fn set16(&mut self, o: u32, v: u16) { self.d[o as usize..o as usize + 2].copy_from_slice(&v.to_le_bytes()) }
    /// the hive file
    pub fn finish(mut self, root: u32) -> Vec<u8> {
        let n = (self.d.len() + 4095) / 4096 * 4096;
        self.d.resize(n, 0);
        let mut b = self.header(root, n as u32);
        b.extend_from_slice(&self.d);
        b
    }
    /// without padding after the last cell
    pub fn finish_tight(self, root: u32) -> Vec<u8> {
        let mut b = self.header(root, (self.d.len() / 4096 * 4096) as u32);
        b.extend_from_slice(&self.d);
        b
    }
    fn header(&self, root: u32, size: u32) -> Vec<u8> {
        let mut b = vec![0u8; 4096];
        b[..4].copy_from_slice(b"regf");
        for (o, v) in [(4, 1u32), (8, 1), (20, 1), (24, 5), (28, 0), (32, 1), (36, root), (40, size), (44, 1)] { b[o..o + 4].copy_from_slice(&v.to_le_bytes()) }
        fix_checksum(&mut b);
        b
    }
}
pub fn fix_checksum(b: &mut [u8]) {
    let mut x = 0u32;
    for i in 0..127 { x ^= u32::from_le_bytes(b[4 * i..4 * i + 4].try_into().unwrap()) }
    let x = if x == 0 { 1 } else if x == u32::MAX { u32::MAX - 1 } else { x };
    b[508..512].copy_from_slice(&x.to_le_bytes());
}
/// a root key with values
pub fn with_values(mut h: Hb, vks: &[u32]) -> (Hb, u32) {
    let l = h.list(vks);
    let r = h.nk(&Key { nval: vks.len() as u32, val: l, ..key(b"root") });
    (h, r)
}
