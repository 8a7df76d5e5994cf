//! Hash-consed bit-vector expressions with local simplification.
//! Every expression is a bit-vector of width 1..=128; predicates have width 1.
use std::collections::HashMap;

pub type Ex = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Op {
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    Shl,
    LShr,
    AShr,
    And,
    Or,
    Xor,
    // predicates (result width 1)
    Eq,
    Ult,
    Ule,
    Slt,
    Sle,
    // Concat(hi, lo)
    Concat,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Node {
    Const(u128),
    /// Symbolic input number `k` of the path.
    Sym(u32),
    /// Uninitialised / undef value; using one in a decision is reported.
    Undef(u32),
    Bin(Op, Ex, Ex),
    Ite(Ex, Ex, Ex),
    Extract(Ex, u8),
    Zext(Ex),
    Sext(Ex),
}

pub fn mask(w: u32) -> u128 {
    if w >= 128 { u128::MAX } else { (1u128 << w) - 1 }
}

pub fn sext128(v: u128, w: u32) -> i128 {
    let s = 128 - w;
    ((v << s) as i128) >> s
}

pub fn eval_op(op: Op, a: u128, b: u128, w: u32, wb: u32) -> u128 {
    let m = mask(w);
    match op {
        Op::Add => a.wrapping_add(b) & m,
        Op::Sub => a.wrapping_sub(b) & m,
        Op::Mul => a.wrapping_mul(b) & m,
        Op::UDiv => if b == 0 { m } else { a / b },
        Op::URem => if b == 0 { a } else { a % b },
        Op::SDiv => {
            let (x, y) = (sext128(a, w), sext128(b, w));
            if y == 0 { if x < 0 { 1 } else { m } } else { (x.wrapping_div(y) as u128) & m }
        }
        Op::SRem => {
            let (x, y) = (sext128(a, w), sext128(b, w));
            if y == 0 { a } else { (x.wrapping_rem(y) as u128) & m }
        }
        Op::Shl => if b >= w as u128 { 0 } else { (a << b) & m },
        Op::LShr => if b >= w as u128 { 0 } else { a >> b },
        Op::AShr => {
            let x = sext128(a, w);
            let s = if b >= w as u128 { w - 1 } else { b as u32 };
            ((x >> s) as u128) & m
        }
        Op::And => a & b,
        Op::Or => a | b,
        Op::Xor => a ^ b,
        Op::Eq => (a == b) as u128,
        Op::Ult => (a < b) as u128,
        Op::Ule => (a <= b) as u128,
        Op::Slt => (sext128(a, w) < sext128(b, w)) as u128,
        Op::Sle => (sext128(a, w) <= sext128(b, w)) as u128,
        Op::Concat => (a << wb) | b,
    }
}

pub struct Arena {
    pub nodes: Vec<(Node, u8)>,
    pub tainted: Vec<bool>,
    map: HashMap<(Node, u8), Ex>,
    undef_n: u32,
    // evaluation memo
    memo: Vec<(u32, u128)>,
    epoch: u32,
}

impl Arena {
    pub fn new() -> Self {
        Arena { nodes: Vec::new(), tainted: Vec::new(), map: HashMap::new(), undef_n: 0, memo: Vec::new(), epoch: 0 }
    }
    pub fn w(&self, e: Ex) -> u32 {
        self.nodes[e as usize].1 as u32
    }
    pub fn node(&self, e: Ex) -> Node {
        self.nodes[e as usize].0
    }
    pub fn is_const(&self, e: Ex) -> Option<u128> {
        match self.nodes[e as usize].0 {
            Node::Const(c) => Some(c),
            _ => None,
        }
    }
    fn mk(&mut self, n: Node, w: u32) -> Ex {
        debug_assert!(w >= 1 && w <= 128);
        let key = (n, w as u8);
        if let Some(&e) = self.map.get(&key) {
            return e;
        }
        let t = match n {
            Node::Const(_) | Node::Sym(_) => false,
            Node::Undef(_) => true,
            Node::Bin(_, a, b) => self.tainted[a as usize] || self.tainted[b as usize],
            Node::Ite(c, a, b) => self.tainted[a as usize] || self.tainted[b as usize] || self.tainted[c as usize],
            Node::Extract(a, _) | Node::Zext(a) | Node::Sext(a) => self.tainted[a as usize],
        };
        let e = self.nodes.len() as Ex;
        assert!(e < (1 << 28), "expression arena exhausted");
        self.nodes.push(key);
        self.tainted.push(t);
        self.map.insert(key, e);
        e
    }
    pub fn constant(&mut self, v: u128, w: u32) -> Ex {
        self.mk(Node::Const(v & mask(w)), w)
    }
    pub fn sym(&mut self, k: u32, w: u32) -> Ex {
        self.mk(Node::Sym(k), w)
    }
    pub fn undef(&mut self, w: u32) -> Ex {
        self.undef_n += 1;
        let n = self.undef_n;
        self.mk(Node::Undef(n), w)
    }
    pub fn not(&mut self, a: Ex) -> Ex {
        let w = self.w(a);
        let m = self.constant(mask(w), w);
        self.bin(Op::Xor, a, m)
    }
    /// True when `e` is an ite tree (depth-limited) whose leaves are constants.
    fn const_tree(&self, e: Ex, depth: u32) -> bool {
        match self.node(e) {
            Node::Const(_) => true,
            Node::Ite(_, a, b) if depth > 0 => self.const_tree(a, depth - 1) && self.const_tree(b, depth - 1),
            _ => false,
        }
    }
    fn map_tree(&mut self, e: Ex, f: &mut dyn FnMut(&mut Self, Ex) -> Ex) -> Ex {
        match self.node(e) {
            Node::Ite(c, a, b) => {
                let x = self.map_tree(a, f);
                let y = self.map_tree(b, f);
                self.ite(c, x, y)
            }
            _ => f(self, e),
        }
    }
    pub fn bin(&mut self, op: Op, a: Ex, b: Ex) -> Ex {
        let wa = self.w(a);
        let wb = self.w(b);
        let rw = match op {
            Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle => 1,
            Op::Concat => wa + wb,
            _ => wa,
        };
        let ca = self.is_const(a);
        let cb = self.is_const(b);
        if let (Some(x), Some(y)) = (ca, cb) {
            return self.constant(eval_op(op, x, y, wa, wb), rw);
        }
        let m = mask(wa);
        // canonicalise constants to the right for commutative operators
        match op {
            Op::Add | Op::Mul | Op::And | Op::Or | Op::Xor | Op::Eq => {
                if ca.is_some() || (cb.is_none() && a > b) {
                    return self.bin_n(op, b, a, wa, wb, rw, m);
                }
            }
            _ => {}
        }
        self.bin_n(op, a, b, wa, wb, rw, m)
    }
    fn bin_n(&mut self, op: Op, a: Ex, b: Ex, wa: u32, wb: u32, rw: u32, m: u128) -> Ex {
        let ca = self.is_const(a);
        let cb = self.is_const(b);
        let na = self.node(a);
        let nb = self.node(b);
        match op {
            Op::Add => {
                if cb == Some(0) { return a; }
                if let (Node::Bin(Op::Add, x, y), Some(c)) = (na, cb) {
                    if let Some(d) = self.is_const(y) {
                        let k = self.constant(c.wrapping_add(d), wa);
                        return self.bin(Op::Add, x, k);
                    }
                }
            }
            Op::Sub => {
                if cb == Some(0) { return a; }
                if a == b { return self.constant(0, wa); }
                if let Some(c) = cb {
                    let k = self.constant(0u128.wrapping_sub(c), wa);
                    return self.bin(Op::Add, a, k);
                }
                // (x + c) - x
                if let Node::Bin(Op::Add, x, y) = na {
                    if x == b { return y; }
                    if y == b { return x; }
                }
            }
            Op::Mul => {
                if cb == Some(0) { return b; }
                if cb == Some(1) { return a; }
            }
            Op::And => {
                if cb == Some(0) { return b; }
                if cb == Some(m) { return a; }
                if a == b { return a; }
                if wa == 1 && self.not(a) == b { return self.constant(0, 1); }
                if let (Node::Zext(x), Some(c)) = (na, cb) {
                    let xw = self.w(x);
                    if c & mask(xw) == mask(xw) { return a; }
                }
            }
            Op::Or => {
                if cb == Some(0) { return a; }
                if cb == Some(m) { return b; }
                if a == b { return a; }
                if wa == 1 && self.not(a) == b { return self.constant(1, 1); }
            }
            Op::Xor => {
                if cb == Some(0) { return a; }
                if a == b { return self.constant(0, wa); }
                if let (Node::Bin(Op::Xor, x, y), Some(c)) = (na, cb) {
                    if let Some(d) = self.is_const(y) {
                        let k = self.constant(c ^ d, wa);
                        return self.bin(Op::Xor, x, k);
                    }
                }
            }
            Op::Shl | Op::LShr | Op::AShr => {
                if cb == Some(0) { return a; }
                if let (Op::Shl | Op::LShr, Some(c)) = (op, cb) {
                    if c >= wa as u128 { return self.constant(0, wa); }
                    // shifts by constants as structural operations
                    let c = c as u32;
                    if op == Op::LShr {
                        let hi = self.extract(a, c, wa - c);
                        return self.zext(hi, wa);
                    } else {
                        let lo = self.extract(a, 0, wa - c);
                        let z = self.constant(0, c);
                        return self.bin(Op::Concat, lo, z);
                    }
                }
            }
            Op::Eq => {
                if a == b { return self.constant(1, 1); }
                if wa == 1 {
                    if cb == Some(1) { return a; }
                    if cb == Some(0) { return self.not(a); }
                }
                if let (Node::Zext(x), Some(c)) = (na, cb) {
                    let xw = self.w(x);
                    if c > mask(xw) { return self.constant(0, 1); }
                    let k = self.constant(c, xw);
                    return self.bin(Op::Eq, x, k);
                }
                if let (Node::Zext(x), Node::Zext(y)) = (na, nb) {
                    if self.w(x) == self.w(y) { return self.bin(Op::Eq, x, y); }
                }
                if let (Node::Bin(Op::Add, x, y), Some(c)) = (na, cb) {
                    if let Some(d) = self.is_const(y) {
                        let k = self.constant(c.wrapping_sub(d), wa);
                        return self.bin(Op::Eq, x, k);
                    }
                }
            }
            Op::Ult => {
                if a == b { return self.constant(0, 1); }
                if cb == Some(0) { return self.constant(0, 1); }
                if ca == Some(m) { return self.constant(0, 1); }
                if cb == Some(1) { let z = self.constant(0, wa); return self.bin(Op::Eq, a, z); }
                if let (Node::Zext(x), Node::Zext(y)) = (na, nb) {
                    if self.w(x) == self.w(y) { return self.bin(Op::Ult, x, y); }
                }
                if let (Node::Zext(x), Some(c)) = (na, cb) {
                    let xw = self.w(x);
                    if c > mask(xw) { return self.constant(1, 1); }
                    let k = self.constant(c, xw);
                    return self.bin(Op::Ult, x, k);
                }
                if let (Some(c), Node::Zext(y)) = (ca, nb) {
                    let yw = self.w(y);
                    if c >= mask(yw) { return self.constant(0, 1); }
                    let k = self.constant(c, yw);
                    return self.bin(Op::Ult, k, y);
                }
            }
            Op::Ule => {
                // a <= b  ==  !(b < a)
                let l = self.bin(Op::Ult, b, a);
                return self.not(l);
            }
            Op::Slt => {
                if a == b { return self.constant(0, 1); }
                if let (Node::Zext(x), Node::Zext(y)) = (na, nb) {
                    if self.w(x) == self.w(y) { return self.bin(Op::Ult, x, y); }
                }
                if let (Node::Zext(_), Some(c)) = (na, cb) {
                    if c >> (wa - 1) & 1 == 0 { return self.bin(Op::Ult, a, b); }
                    return self.constant(0, 1);
                }
                if let (Some(c), Node::Zext(_)) = (ca, nb) {
                    if c >> (wa - 1) & 1 == 0 { return self.bin(Op::Ult, a, b); }
                    return self.constant(1, 1);
                }
            }
            Op::Sle => {
                let l = self.bin(Op::Slt, b, a);
                return self.not(l);
            }
            Op::Concat => {
                if ca == Some(0) { return self.zext(b, rw); }
                // Concat(Extract(x, k), Extract(x, j)) when adjacent
                if let (Node::Extract(x, hi), Node::Extract(y, lo)) = (na, nb) {
                    if x == y && lo as u32 + wb == hi as u32 {
                        return self.extract(x, lo as u32, rw);
                    }
                }
                if let Node::Extract(x, hi) = na {
                    // low part is the whole low end of x
                    if x == b && hi == 0 { /* different */ }
                }
                // Concat(Zext(x), y) -> Zext(Concat(x, y))
                if let Node::Zext(x) = na {
                    let t = self.bin(Op::Concat, x, b);
                    return self.zext(t, rw);
                }
                // Concat(Concat(p, Extract(x,hi)), Extract(x,lo))
                if let (Node::Bin(Op::Concat, p, q), Node::Extract(y, lo)) = (na, nb) {
                    if let Node::Extract(x, hi) = self.node(q) {
                        if x == y && lo as u32 + wb == hi as u32 {
                            let qw = self.w(q);
                            let t = self.extract(x, lo as u32, qw + wb);
                            return self.bin(Op::Concat, p, t);
                        }
                    }
                }
            }
            _ => {}
        }
        // operations over ite-trees of constants
        if matches!(op, Op::Concat) == false {
            if cb.is_some() && matches!(na, Node::Ite(..)) && self.const_tree(a, 6) {
                return self.map_tree(a, &mut |s, x| s.bin(op, x, b));
            }
            if ca.is_some() && matches!(nb, Node::Ite(..)) && self.const_tree(b, 6) {
                return self.map_tree(b, &mut |s, x| s.bin(op, a, x));
            }
        }
        self.mk(Node::Bin(op, a, b), rw)
    }
    pub fn ite(&mut self, c: Ex, a: Ex, b: Ex) -> Ex {
        if let Some(k) = self.is_const(c) {
            return if k != 0 { a } else { b };
        }
        if a == b { return a; }
        let w = self.w(a);
        if w == 1 {
            match (self.is_const(a), self.is_const(b)) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not(c),
                (Some(1), None) => return self.bin(Op::Or, c, b),
                (None, Some(0)) => return self.bin(Op::And, c, a),
                (Some(0), None) => { let n = self.not(c); return self.bin(Op::And, n, b); }
                (None, Some(1)) => { let n = self.not(c); return self.bin(Op::Or, n, a); }
                _ => {}
            }
        }
        // ite(!c, a, b) -> ite(c, b, a)
        if let Node::Bin(Op::Xor, x, y) = self.node(c) {
            if self.is_const(y) == Some(1) { return self.ite(x, b, a); }
        }
        // nested with the same condition
        let a2 = if let Node::Ite(c2, x, _) = self.node(a) { if c2 == c { x } else { a } } else { a };
        let b2 = if let Node::Ite(c2, _, y) = self.node(b) { if c2 == c { y } else { b } } else { b };
        if a2 == b2 { return a2; }
        self.mk(Node::Ite(c, a2, b2), w)
    }
    pub fn extract(&mut self, a: Ex, lo: u32, w: u32) -> Ex {
        let aw = self.w(a);
        if lo == 0 && w == aw { return a; }
        debug_assert!(lo + w <= aw);
        match self.node(a) {
            Node::Const(c) => return self.constant(c >> lo, w),
            Node::Extract(x, l) => return self.extract(x, l as u32 + lo, w),
            Node::Zext(x) => {
                let xw = self.w(x);
                if lo >= xw { return self.constant(0, w); }
                if lo + w <= xw { return self.extract(x, lo, w); }
                let t = self.extract(x, lo, xw - lo);
                return self.zext(t, w);
            }
            Node::Sext(x) => {
                let xw = self.w(x);
                if lo + w <= xw { return self.extract(x, lo, w); }
            }
            Node::Bin(Op::Concat, h, l) => {
                let lw = self.w(l);
                if lo >= lw { return self.extract(h, lo - lw, w); }
                if lo + w <= lw { return self.extract(l, lo, w); }
                let p = self.extract(l, lo, lw - lo);
                let q = self.extract(h, 0, w - (lw - lo));
                return self.bin(Op::Concat, q, p);
            }
            Node::Bin(op @ (Op::And | Op::Or | Op::Xor), x, y) => {
                let p = self.extract(x, lo, w);
                let q = self.extract(y, lo, w);
                return self.bin(op, p, q);
            }
            Node::Ite(c, x, y) => {
                let p = self.extract(x, lo, w);
                let q = self.extract(y, lo, w);
                return self.ite(c, p, q);
            }
            _ => {}
        }
        self.mk(Node::Extract(a, lo as u8), w)
    }
    pub fn zext(&mut self, a: Ex, w: u32) -> Ex {
        let aw = self.w(a);
        if aw == w { return a; }
        if aw > w { return self.extract(a, 0, w); }
        match self.node(a) {
            Node::Const(c) => return self.constant(c, w),
            Node::Zext(x) => return self.zext(x, w),
            Node::Ite(c, x, y) if self.const_tree(a, 6) => {
                let p = self.zext(x, w);
                let q = self.zext(y, w);
                return self.ite(c, p, q);
            }
            _ => {}
        }
        self.mk(Node::Zext(a), w)
    }
    pub fn sext(&mut self, a: Ex, w: u32) -> Ex {
        let aw = self.w(a);
        if aw == w { return a; }
        match self.node(a) {
            Node::Const(c) => return self.constant(sext128(c, aw) as u128, w),
            Node::Zext(x) => return self.zext(x, w),
            Node::Ite(c, x, y) if self.const_tree(a, 6) => {
                let p = self.sext(x, w);
                let q = self.sext(y, w);
                return self.ite(c, p, q);
            }
            _ => {}
        }
        self.mk(Node::Sext(a), w)
    }
    /// Value of `e` under the assignment `model` of the path's symbols.
    pub fn eval(&mut self, e: Ex, model: &[u128]) -> u128 {
        self.epoch = self.epoch.wrapping_add(1);
        if self.memo.len() < self.nodes.len() {
            self.memo.resize(self.nodes.len() + 1024, (0, 0));
        }
        self.eval_rec(e, model)
    }
    fn eval_rec(&mut self, e: Ex, model: &[u128]) -> u128 {
        let (n, w) = self.nodes[e as usize];
        match n {
            Node::Const(c) => return c,
            Node::Sym(k) => return model.get(k as usize).copied().unwrap_or(0) & mask(w as u32),
            Node::Undef(_) => return 0,
            _ => {}
        }
        let m = self.memo[e as usize];
        if m.0 == self.epoch { return m.1; }
        let v = match n {
            Node::Bin(op, a, b) => {
                let x = self.eval_rec(a, model);
                let y = self.eval_rec(b, model);
                eval_op(op, x, y, self.w(a), self.w(b))
            }
            Node::Ite(c, a, b) => if self.eval_rec(c, model) != 0 { self.eval_rec(a, model) } else { self.eval_rec(b, model) },
            Node::Extract(a, lo) => (self.eval_rec(a, model) >> lo) & mask(w as u32),
            Node::Zext(a) => self.eval_rec(a, model),
            Node::Sext(a) => {
                let x = self.eval_rec(a, model);
                sext128(x, self.w(a)) as u128 & mask(w as u32)
            }
            _ => unreachable!(),
        };
        self.memo[e as usize] = (self.epoch, v);
        v
    }
    /// Evaluation without memo or simplification, used to cross-check the simplifier.
    pub fn show(&self, e: Ex, depth: u32) -> String {
        if depth == 0 { return "..".into(); }
        let (n, w) = self.nodes[e as usize];
        match n {
            Node::Const(c) => format!("{c}:{w}"),
            Node::Sym(k) => format!("s{k}:{w}"),
            Node::Undef(k) => format!("undef{k}:{w}"),
            Node::Bin(op, a, b) => format!("({op:?} {} {})", self.show(a, depth - 1), self.show(b, depth - 1)),
            Node::Ite(c, a, b) => format!("(ite {} {} {})", self.show(c, depth - 1), self.show(a, depth - 1), self.show(b, depth - 1)),
            Node::Extract(a, lo) => format!("{}[{}+{}]", self.show(a, depth - 1), lo, w),
            Node::Zext(a) => format!("(zext{} {})", w, self.show(a, depth - 1)),
            Node::Sext(a) => format!("(sext{} {})", w, self.show(a, depth - 1)),
        }
    }
}
