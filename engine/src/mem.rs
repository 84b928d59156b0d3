//! Paged copy-on-write memory; each byte is concrete or a width-8 expression.
use crate::expr::*;
use std::rc::Rc;

pub const PG: usize = 1024;
pub const CH: usize = 64; // pages per chunk

#[derive(Clone)]
pub struct Page { pub d: [u8; PG], pub s: Option<Box<[E; PG]>> }
type Chunk = [Option<Rc<Page>>; CH];

pub const GLOB: u64 = 0x1000_0000_0000;
pub const FNS: u64 = 0x2000_0000_0000;
pub const HEAP: u64 = 0x5000_0000_0000;
pub const STACK: u64 = 0x7000_0000_0000; // lowest stack address
pub const STACK_SZ: u64 = 0x0400_0000; // 64 MB window

#[derive(Clone)]
pub struct Mem {
    img: &'static [u8],
    reg: [Vec<Option<Rc<Chunk>>>; 3],
    pub heap_top: u64,
}

#[derive(Debug)]
pub struct Fault(pub u64);

impl Mem {
    pub fn new(img: &'static [u8]) -> Mem { Mem { img, reg: [vec![], vec![], vec![]], heap_top: HEAP + 64 } }
    #[inline]
    fn loc(&self, a: u64) -> Result<(usize, usize, usize), Fault> {
        let (r, off) = match a >> 40 { 0x10 => (0, a - GLOB), 0x50 => (1, a - HEAP), 0x70 => (2, a - STACK), _ => return Err(Fault(a)) };
        match r {
            0 => if off as usize >= self.img.len() { return Err(Fault(a)); },
            1 => if a >= self.heap_top { return Err(Fault(a)); },
            _ => if off >= STACK_SZ { return Err(Fault(a)); },
        }
        let p = off as usize / PG;
        Ok((r, p, off as usize % PG))
    }
    #[inline]
    fn page(&self, r: usize, p: usize) -> Option<&Page> {
        match self.reg[r].get(p / CH) { Some(Some(c)) => c[p % CH].as_deref(), _ => None }
    }
    fn page_mut(&mut self, r: usize, p: usize) -> &mut Page {
        let ci = p / CH;
        let v = &mut self.reg[r];
        if v.len() <= ci { v.resize(ci + 1, None); }
        if v[ci].is_none() { const N: Option<Rc<Page>> = None; v[ci] = Some(Rc::new([N; CH])); }
        let ch = Rc::make_mut(v[ci].as_mut().unwrap());
        let slot = &mut ch[p % CH];
        if slot.is_none() {
            let mut pg = Page { d: [0; PG], s: None };
            if r == 0 { let o = p * PG; let e = (o + PG).min(self.img.len()); pg.d[..e - o].copy_from_slice(&self.img[o..e]); }
            *slot = Some(Rc::new(pg));
        }
        Rc::make_mut(slot.as_mut().unwrap())
    }
    /// concrete little-endian read of n<=16 bytes, None if any byte is symbolic
    #[inline]
    pub fn read(&self, a: u64, n: usize) -> Result<Option<u128>, Fault> {
        let (r, p, o) = self.loc(a)?;
        if o + n <= PG {
            match self.page(r, p) {
                Some(pg) => {
                    if let Some(s) = &pg.s { for i in o..o + n { if s[i] != 0 { return Ok(None); } } }
                    let mut b = [0u8; 16];
                    b[..n].copy_from_slice(&pg.d[o..o + n]);
                    Ok(Some(u128::from_le_bytes(b)))
                }
                None => {
                    if r == 0 {
                        let s = p * PG + o;
                        if s + n > self.img.len() { return Err(Fault(a)); }
                        let mut b = [0u8; 16];
                        b[..n].copy_from_slice(&self.img[s..s + n]);
                        Ok(Some(u128::from_le_bytes(b)))
                    } else { Ok(Some(0)) }
                }
            }
        } else {
            let mut v = 0u128;
            for i in 0..n { match self.byte(a + i as u64)? { (c, 0) => v |= (c as u128) << (8 * i), _ => return Ok(None) } }
            Ok(Some(v))
        }
    }
    #[inline]
    pub fn byte(&self, a: u64) -> Result<(u8, E), Fault> {
        let (r, p, o) = self.loc(a)?;
        Ok(match self.page(r, p) {
            Some(pg) => (pg.d[o], pg.s.as_ref().map_or(0, |s| s[o])),
            None => if r == 0 { (self.img[p * PG + o], 0) } else { (0, 0) },
        })
    }
    pub fn write(&mut self, a: u64, n: usize, v: u128) -> Result<(), Fault> {
        let (r, p, o) = self.loc(a)?;
        if o + n <= PG {
            let pg = self.page_mut(r, p);
            pg.d[o..o + n].copy_from_slice(&v.to_le_bytes()[..n]);
            if let Some(s) = &mut pg.s { for i in o..o + n { s[i] = 0; } }
        } else { for i in 0..n { self.put(a + i as u64, (v >> (8 * i)) as u8, 0)?; } }
        Ok(())
    }
    pub fn put(&mut self, a: u64, c: u8, e: E) -> Result<(), Fault> {
        let (r, p, o) = self.loc(a)?;
        let pg = self.page_mut(r, p);
        pg.d[o] = c;
        match &mut pg.s { Some(s) => s[o] = e, None => if e != 0 { let mut s = Box::new([0; PG]); s[o] = e; pg.s = Some(s); } }
        Ok(())
    }
    pub fn read_range(&self, a: u64, n: u64) -> Result<(Vec<u8>, Option<Vec<E>>), Fault> {
        let mut d = Vec::with_capacity(n as usize);
        let mut s: Option<Vec<E>> = None;
        let mut i = 0u64;
        while i < n {
            let (r, p, o) = self.loc(a + i)?;
            let k = ((PG - o) as u64).min(n - i) as usize;
            match self.page(r, p) {
                Some(pg) => {
                    d.extend_from_slice(&pg.d[o..o + k]);
                    if let Some(ps) = &pg.s {
                        if s.is_none() && ps[o..o + k].iter().any(|x| *x != 0) { s = Some(vec![0; i as usize]); }
                        if let Some(v) = &mut s { v.extend_from_slice(&ps[o..o + k]); }
                    } else if let Some(v) = &mut s { v.resize(v.len() + k, 0); }
                }
                None => {
                    if r == 0 { let q = p * PG + o; if q + k > self.img.len() { return Err(Fault(a + i)); } d.extend_from_slice(&self.img[q..q + k]); } else { d.resize(d.len() + k, 0); }
                    if let Some(v) = &mut s { v.resize(v.len() + k, 0); }
                }
            }
            i += k as u64;
        }
        Ok((d, s))
    }
    pub fn write_range(&mut self, a: u64, d: &[u8], s: Option<&[E]>) -> Result<(), Fault> {
        let n = d.len();
        let mut i = 0usize;
        while i < n {
            let (r, p, o) = self.loc(a + i as u64)?;
            let k = (PG - o).min(n - i);
            let pg = self.page_mut(r, p);
            pg.d[o..o + k].copy_from_slice(&d[i..i + k]);
            match s {
                Some(s) => {
                    let src = &s[i..i + k];
                    if pg.s.is_some() || src.iter().any(|x| *x != 0) { pg.s.get_or_insert_with(|| Box::new([0; PG]))[o..o + k].copy_from_slice(src); }
                }
                None => if let Some(ps) = &mut pg.s { for x in ps[o..o + k].iter_mut() { *x = 0; } },
            }
            i += k;
        }
        Ok(())
    }
    pub fn fill(&mut self, a: u64, n: u64, c: u8, e: E) -> Result<(), Fault> {
        let mut i = 0u64;
        while i < n {
            let (r, p, o) = self.loc(a + i)?;
            let k = ((PG - o) as u64).min(n - i) as usize;
            let pg = self.page_mut(r, p);
            for x in pg.d[o..o + k].iter_mut() { *x = c; }
            if e != 0 { let s = pg.s.get_or_insert_with(|| Box::new([0; PG])); for x in s[o..o + k].iter_mut() { *x = e; } }
            else if let Some(s) = &mut pg.s { for x in s[o..o + k].iter_mut() { *x = 0; } }
            i += k as u64;
        }
        Ok(())
    }
    /// heap block with a 16-byte size header
    pub fn alloc(&mut self, size: u64, align: u64) -> u64 {
        let align = align.max(16);
        let p = (self.heap_top + 16 + align - 1) / align * align;
        self.heap_top = p + size.max(1) + 16; // red zone
        let _ = self.write(p - 16, 8, size as u128);
        p
    }
    pub fn size_of(&self, p: u64) -> u64 { self.read(p - 16, 8).ok().flatten().unwrap_or(0) as u64 }
}
