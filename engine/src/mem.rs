//! Copy-on-write flat memory: concrete bytes plus a sparse symbolic overlay.
use crate::expr::*;
use crate::ir::Val;
use std::sync::Arc;

pub const PS: usize = 1024;
const MID: usize = 1024;
#[derive(Clone)]
pub struct Page { data: [u8; PS], bits: [u64; PS / 64], sym: Vec<(u16, E)> }
#[derive(Clone)]
struct Mid { p: Vec<Option<Arc<Page>>> }
#[derive(Clone)]
pub struct Mem { top: Vec<Option<Arc<Mid>>> }
const MAXADDR: u64 = 1 << 32;

impl Page {
    fn new() -> Page { Page { data: [0; PS], bits: [0; PS / 64], sym: Vec::new() } }
    #[inline]
    fn is_sym(&self, o: usize) -> bool { self.bits[o >> 6] >> (o & 63) & 1 == 1 }
    fn get_sym(&self, o: usize) -> &E { let i = self.sym.binary_search_by_key(&(o as u16), |x| x.0).unwrap(); &self.sym[i].1 }
    fn clear_sym(&mut self, o: usize) {
        self.bits[o >> 6] &= !(1 << (o & 63));
        if let Ok(i) = self.sym.binary_search_by_key(&(o as u16), |x| x.0) { self.sym.remove(i); }
    }
    fn set_sym(&mut self, o: usize, e: E) {
        self.bits[o >> 6] |= 1 << (o & 63);
        match self.sym.binary_search_by_key(&(o as u16), |x| x.0) { Ok(i) => self.sym[i].1 = e, Err(i) => self.sym.insert(i, (o as u16, e)) }
    }
}

#[derive(Debug)]
pub struct Fault(pub u64);

impl Mem {
    pub fn new() -> Mem { Mem { top: vec![None; (MAXADDR as usize) / PS / MID] } }
    #[inline]
    fn page(&self, a: u64) -> Option<&Page> {
        if a >= MAXADDR { return None; }
        let pn = a as usize / PS;
        self.top[pn / MID].as_ref()?.p[pn % MID].as_deref()
    }
    #[inline]
    fn page_mut(&mut self, a: u64) -> Option<&mut Page> {
        if a >= MAXADDR || a < 0x1000 { return None; }
        let pn = a as usize / PS;
        let mid = self.top[pn / MID].get_or_insert_with(|| Arc::new(Mid { p: vec![None; MID] }));
        let mid = Arc::make_mut(mid);
        let p = mid.p[pn % MID].get_or_insert_with(|| Arc::new(Page::new()));
        Some(Arc::make_mut(p))
    }
    #[inline]
    pub fn load_u64(&self, a: u64, n: usize) -> Option<u64> {
        // fast concrete path
        let o = a as usize % PS;
        if o + n > PS { return None; }
        let p = self.page(a)?;
        if !p.sym.is_empty() { for i in 0..n { if p.is_sym(o + i) { return None; } } }
        let mut b = [0u8; 8];
        b[..n].copy_from_slice(&p.data[o..o + n]);
        Some(u64::from_le_bytes(b))
    }
    pub fn byte(&self, a: u64) -> Result<Val, Fault> {
        let p = self.page(a).ok_or(Fault(a))?;
        let o = a as usize % PS;
        if p.is_sym(o) { Ok(Val::S(p.get_sym(o).clone())) } else { Ok(Val::I(p.data[o] as u64)) }
    }
    /// load n bytes (n<=16), returning a value of width w
    pub fn load(&self, a: u64, n: usize, w: u16) -> Result<Val, Fault> {
        if n <= 8 { if let Some(v) = self.load_u64(a, n) { return Ok(Val::I(v & mask(w) as u64)); } }
        let mut conc: u128 = 0;
        let mut any = false;
        for i in 0..n {
            match self.byte(a.wrapping_add(i as u64))? { Val::I(x) => conc |= (x as u128) << (8 * i), _ => { any = true; break; } }
        }
        if !any { return Ok(crate::ir::vconst(conc, w)); }
        let mut e: Option<E> = None;
        for i in 0..n {
            let b = match self.byte(a.wrapping_add(i as u64))? { Val::I(x) => konst(x as u128, 8), Val::S(e) => e, _ => unreachable!() };
            e = Some(match e { None => b, Some(l) => concat(&b, &l) });
        }
        let e = e.unwrap();
        let e = extract(&e, 0, w);
        Ok(val_of(e))
    }
    pub fn store_u64(&mut self, a: u64, n: usize, v: u64) -> Result<(), Fault> {
        let o = a as usize % PS;
        let b = v.to_le_bytes();
        if o + n <= PS {
            let p = self.page_mut(a).ok_or(Fault(a))?;
            p.data[o..o + n].copy_from_slice(&b[..n]);
            if !p.sym.is_empty() { for i in 0..n { if p.is_sym(o + i) { p.clear_sym(o + i); } } }
            return Ok(());
        }
        for i in 0..n { self.store_byte(a + i as u64, b[i])?; }
        Ok(())
    }
    pub fn store_byte(&mut self, a: u64, v: u8) -> Result<(), Fault> {
        let p = self.page_mut(a).ok_or(Fault(a))?;
        let o = a as usize % PS;
        p.data[o] = v;
        if p.is_sym(o) { p.clear_sym(o); }
        Ok(())
    }
    pub fn store_sym(&mut self, a: u64, e: E) -> Result<(), Fault> {
        if let Some(c) = cval(&e) { return self.store_byte(a, c as u8); }
        let p = self.page_mut(a).ok_or(Fault(a))?;
        p.set_sym(a as usize % PS, e);
        Ok(())
    }
    pub fn store(&mut self, a: u64, n: usize, w: u16, v: &Val) -> Result<(), Fault> {
        match v {
            Val::I(x) => if n <= 8 { self.store_u64(a, n, *x) } else { self.store_u64(a, 8, *x)?; for i in 8..n { self.store_byte(a + i as u64, 0)?; } Ok(()) },
            Val::W(x) => { for i in 0..n { self.store_byte(a + i as u64, (**x >> (8 * i)) as u8)?; } Ok(()) }
            Val::S(e) => {
                let e = if (w as usize) < 8 * n { zext(e, (8 * n) as u16) } else { e.clone() };
                for i in 0..n { self.store_sym(a + i as u64, extract(&e, 8 * i as u16, 8))?; }
                Ok(())
            }
            Val::A(_) => panic!("store aggregate"),
        }
    }
    pub fn copy(&mut self, dst: u64, src: u64, n: u64) -> Result<(), Fault> {
        if n == 0 || dst == src { return Ok(()); }
        // gather then scatter by page chunks
        let mut buf: Vec<u8> = vec![0; n as usize];
        let mut syms: Vec<(u64, E)> = Vec::new();
        let mut i = 0u64;
        while i < n {
            let a = src + i;
            let o = a as usize % PS;
            let k = ((PS - o) as u64).min(n - i) as usize;
            let p = self.page(a).ok_or(Fault(a))?;
            buf[i as usize..i as usize + k].copy_from_slice(&p.data[o..o + k]);
            if !p.sym.is_empty() { for (so, e) in &p.sym { let so = *so as usize; if so >= o && so < o + k { syms.push((i + (so - o) as u64, e.clone())); } } }
            i += k as u64;
        }
        self.write(dst, &buf)?;
        for (i, e) in syms { self.store_sym(dst + i, e)?; }
        Ok(())
    }
    pub fn write(&mut self, dst: u64, b: &[u8]) -> Result<(), Fault> {
        let n = b.len() as u64;
        let mut i = 0u64;
        while i < n {
            let a = dst + i;
            let o = a as usize % PS;
            let k = ((PS - o) as u64).min(n - i) as usize;
            let p = self.page_mut(a).ok_or(Fault(a))?;
            p.data[o..o + k].copy_from_slice(&b[i as usize..i as usize + k]);
            if !p.sym.is_empty() {
                p.sym.retain(|(so, _)| { let so = *so as usize; so < o || so >= o + k });
                for x in o..o + k { p.bits[x >> 6] &= !(1 << (x & 63)); }
            }
            i += k as u64;
        }
        Ok(())
    }
    pub fn fill(&mut self, dst: u64, n: u64, v: &Val) -> Result<(), Fault> {
        match v {
            Val::I(x) => { let b = vec![*x as u8; n as usize]; self.write(dst, &b) }
            Val::S(e) => { for i in 0..n { self.store_sym(dst + i, e.clone())?; } Ok(()) }
            _ => panic!("fill"),
        }
    }
    pub fn map(&mut self, a: u64, n: u64) { let mut x = a / PS as u64 * PS as u64; while x < a + n { self.page_mut(x); x += PS as u64; } }
    pub fn mapped(&self, a: u64) -> bool { self.page(a).is_some() }
    pub fn cstr(&self, a: u64) -> Result<Vec<Val>, Fault> {
        let mut v = Vec::new();
        let mut a = a;
        loop {
            let b = self.byte(a)?;
            if let Val::I(0) = b { return Ok(v); }
            v.push(b);
            a += 1;
        }
    }
    pub fn bytes(&self, a: u64, n: u64) -> Result<Vec<Val>, Fault> { (0..n).map(|i| self.byte(a + i)).collect() }
}
pub fn val_of(e: E) -> Val {
    match cval(&e) { Some(c) => crate::ir::vconst(c, e.w), None => Val::S(e) }
}
