//! Memory: bounds-, lifetime- and initialisation-checked objects with copy-on-write.
use crate::link::*;
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Kind { Stack, Heap, Global, Const }

#[derive(Clone)]
pub struct Obj {
    pub bytes: Vec<u8>,
    /// 0 concrete, 1 uninitialised, otherwise (expr + 1) << 4 | byte index.
    pub shadow: Vec<u32>,
    pub kind: Kind,
    pub align: u64,
    pub birth: u64,
}

pub const UNINIT: u32 = 1;
pub fn sh(e: u32, i: u32) -> u32 { (e + 1) << 4 | i }
pub fn sh_expr(s: u32) -> (u32, u32) { ((s >> 4) - 1, s & 15) }

#[derive(Clone)]
struct Slot { gener: u16, obj: Option<Rc<Obj>> }

#[derive(Clone)]
pub struct Mem {
    slots: Vec<Slot>,
    free: Vec<u32>,
    gl: HashMap<u32, Rc<Obj>>,
    pub base: Rc<Vec<Rc<Obj>>>,
    pub births: u64,
    pub heap_live: u64,
    pub heap_bytes: u64,
    /// Allocations and bytes ever requested.
    pub heap_allocs: u64,
    pub heap_total: u64,
}

pub fn base_globals(p: &Program) -> Rc<Vec<Rc<Obj>>> {
    Rc::new(p.globals.iter().map(|g| {
        let mut shadow = vec![0u32; g.bytes.len()];
        for &(o, n) in &g.uninit { for s in &mut shadow[o..o + n] { *s = UNINIT; } }
        Rc::new(Obj { bytes: g.bytes.clone(), shadow, kind: if g.constant { Kind::Const } else { Kind::Global }, align: 16, birth: 0 })
    }).collect())
}

impl Mem {
    pub fn new(base: Rc<Vec<Rc<Obj>>>) -> Self {
        Mem { slots: vec![Slot { gener: 0, obj: None }], free: vec![], gl: HashMap::new(), base, births: 1, heap_live: 0, heap_bytes: 0, heap_allocs: 0, heap_total: 0 }
    }
    pub fn alloc(&mut self, size: u64, align: u64, kind: Kind, zero: bool) -> u64 {
        let i = match self.free.pop() {
            Some(i) => i,
            None => { self.slots.push(Slot { gener: 0, obj: None }); (self.slots.len() - 1) as u32 }
        };
        assert!((i as u64) <= SLOT_MASK, "too many live objects");
        let s = &mut self.slots[i as usize];
        s.gener = if s.gener >= 0xFF0 { 1 } else { s.gener + 1 };
        self.births += 1;
        s.obj = Some(Rc::new(Obj { bytes: vec![0; size as usize], shadow: vec![if zero { 0 } else { UNINIT }; size as usize], kind, align, birth: self.births }));
        if kind == Kind::Heap { self.heap_live += 1; self.heap_bytes += size; self.heap_allocs += 1; self.heap_total += size; }
        ((s.gener as u64) << GEN_SHIFT) | ((i as u64) << SLOT_SHIFT) | OFF0
    }
    pub fn dealloc(&mut self, addr: u64) {
        let i = (addr >> SLOT_SHIFT & SLOT_MASK) as usize;
        let o = self.slots[i].obj.take().unwrap();
        if o.kind == Kind::Heap { self.heap_live -= 1; self.heap_bytes -= o.bytes.len() as u64; }
        self.free.push(i as u32);
    }
    /// Object holding `n` bytes at `addr`, with the offset in it.
    #[inline]
    pub fn get(&self, addr: u64, n: u64) -> Result<(&Rc<Obj>, usize), String> {
        let g = addr >> GEN_SHIFT;
        let i = addr >> SLOT_SHIFT & SLOT_MASK;
        let off = (addr & 0xFFFF_FFFF).wrapping_sub(OFF0);
        let o = if g < GEN_EXC {
            match self.slots.get(i as usize) {
                Some(Slot { gener, obj: Some(o) }) if *gener as u64 == g => o,
                Some(Slot { gener, .. }) if i != 0 && g != 0 && *gener as u64 >= g => return Err(format!("access of {n} bytes to a freed or dead object (address {addr:#x})")),
                _ => return Err(format!("access of {n} bytes at invalid address {addr:#x}")),
            }
        } else if g == GEN_GLOBAL && i >= 1 && (i as usize) <= self.base.len() {
            match self.gl.get(&(i as u32)) { Some(o) => o, None => &self.base[i as usize - 1] }
        } else {
            return Err(format!("access of {n} bytes at invalid address {addr:#x}"));
        };
        if off > o.bytes.len() as u64 || n > o.bytes.len() as u64 - off {
            return Err(format!("out-of-bounds access of {n} bytes at offset {} of a {:?} object of {} bytes", off as i32, o.kind, o.bytes.len()));
        }
        Ok((o, off as usize))
    }
    #[inline]
    pub fn get_mut(&mut self, addr: u64, n: u64) -> Result<(&mut Obj, usize), String> {
        let (off, kind) = { let (o, off) = self.get(addr, n)?; (off, o.kind) };
        if kind == Kind::Const { return Err("write to a constant".into()); }
        let g = addr >> GEN_SHIFT;
        let i = addr >> SLOT_SHIFT & SLOT_MASK;
        let rc = if g == GEN_GLOBAL {
            let base = &self.base;
            self.gl.entry(i as u32).or_insert_with(|| base[i as usize - 1].clone())
        } else { self.slots[i as usize].obj.as_mut().unwrap() };
        Ok((Rc::make_mut(rc), off))
    }
    pub fn live_heap(&self) -> Vec<(u64, u64)> {
        self.slots.iter().filter_map(|s| s.obj.as_ref()).filter(|o| o.kind == Kind::Heap).map(|o| (o.birth, o.bytes.len() as u64)).collect()
    }
}
