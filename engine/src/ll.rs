//! Parser for textual LLVM IR as rustc emits it.
use crate::ir::*;
use std::collections::HashMap;
use std::sync::Arc;

struct P<'a> {
    s: &'a [u8],
    full: &'a [u8],
    i: usize,
    types: &'a HashMap<String, Ty>,
    raw_types: &'a HashMap<String, (usize, usize)>,
}

pub fn parse_module(text: &str, module: u32) -> Module {
    let b = text.as_bytes();
    // pass 1: named types
    let mut raw: HashMap<String, (usize, usize)> = HashMap::new();
    let mut pos = 0;
    let mut lines: Vec<(usize, usize)> = Vec::new();
    while pos < b.len() {
        let e = memchr(b, pos, b'\n');
        lines.push((pos, e));
        if b[pos] == b'%' {
            let mut p = P { s: b, full: b, i: pos, types: &HashMap::new(), raw_types: &HashMap::new() };
            let n = p.local();
            p.ws();
            if p.eat("=") {
                p.ws();
                if p.eat("type") {
                    p.ws();
                    raw.insert(n, (p.i, e));
                }
            }
        }
        pos = e + 1;
    }
    let types: HashMap<String, Ty> = HashMap::new();
    let mut m = Module { funcs: Vec::new(), globals: Vec::new(), aliases: Vec::new() };
    let mut li = 0;
    while li < lines.len() {
        let (s, e) = lines[li];
        if s == e { li += 1; continue; }
        if b[s] == b'@' {
            let mut p = P { s: &b[..e], full: b, i: s, types: &types, raw_types: &raw };
            p.global_def(&mut m, module);
            li += 1;
        } else if b[s..e].starts_with(b"define ") {
            // body until a line "}"
            let mut k = li + 1;
            while !(lines[k].1 - lines[k].0 == 1 && b[lines[k].0] == b'}') { k += 1; }
            let end = lines[k].1;
            let mut p = P { s: &b[..end], full: b, i: s, types: &types, raw_types: &raw };
            let f = p.function(module);
            m.funcs.push(f);
            li = k + 1;
        } else {
            li += 1;
        }
    }
    m
}

fn memchr(b: &[u8], mut i: usize, c: u8) -> usize {
    while i < b.len() && b[i] != c { i += 1; }
    i
}

fn is_id(c: u8) -> bool {
    c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-'
}

struct FnCtx {
    regs: HashMap<String, Reg>,
    labels: HashMap<String, u32>,
}

impl FnCtx {
    fn reg(&mut self, n: &str) -> Reg {
        if let Some(&r) = self.regs.get(n) { return r; }
        let r = self.regs.len() as Reg;
        self.regs.insert(n.to_string(), r);
        r
    }
    fn label(&mut self, n: &str) -> u32 {
        if let Some(&r) = self.labels.get(n) { return r; }
        let r = self.labels.len() as u32;
        self.labels.insert(n.to_string(), r);
        r
    }
}

impl<'a> P<'a> {
    fn fail(&self, msg: &str) -> ! {
        let e = (self.i + 160).min(self.s.len());
        let b = self.i.saturating_sub(160);
        panic!("ll parse error: {msg} near: {} <<HERE>> {}", String::from_utf8_lossy(&self.s[b..self.i]), String::from_utf8_lossy(&self.s[self.i..e]));
    }
    fn peek(&self) -> u8 { if self.i < self.s.len() { self.s[self.i] } else { 0 } }
    fn ws(&mut self) { while self.i < self.s.len() && (self.s[self.i] == b' ' || self.s[self.i] == b'\t') { self.i += 1; } }
    fn wsn(&mut self) {
        loop {
            while self.i < self.s.len() && (self.s[self.i] as char).is_ascii_whitespace() { self.i += 1; }
            if self.peek() == b';' { self.i = memchr(self.s, self.i, b'\n'); } else { break; }
        }
    }
    fn eat(&mut self, t: &str) -> bool {
        if self.s[self.i..].starts_with(t.as_bytes()) {
            let last = t.as_bytes()[t.len() - 1];
            if is_id(last) {
                let n = self.i + t.len();
                if n < self.s.len() && is_id(self.s[n]) { return false; }
            }
            self.i += t.len();
            true
        } else { false }
    }
    fn eatw(&mut self, t: &str) -> bool { self.ws(); self.eat(t) }
    fn expect(&mut self, t: &str) { self.ws(); if !self.eat(t) { self.fail(&format!("expected {t}")); } }
    fn line_end(&mut self) { self.i = memchr(self.s, self.i, b'\n'); }
    fn quoted(&mut self) -> String {
        // at '"'
        self.i += 1;
        let s = self.i;
        while self.s[self.i] != b'"' { self.i += 1; }
        let r = String::from_utf8_lossy(&self.s[s..self.i]).into_owned();
        self.i += 1;
        r
    }
    fn ident(&mut self) -> String {
        if self.peek() == b'"' { return self.quoted(); }
        let s = self.i;
        while self.i < self.s.len() && is_id(self.s[self.i]) { self.i += 1; }
        String::from_utf8_lossy(&self.s[s..self.i]).into_owned()
    }
    fn local(&mut self) -> String { self.ws(); if self.peek() != b'%' { self.fail("local"); } self.i += 1; self.ident() }
    fn global(&mut self) -> String { self.ws(); if self.peek() != b'@' { self.fail("global"); } self.i += 1; self.ident() }
    fn word(&mut self) -> String {
        let s = self.i;
        while self.i < self.s.len() && (is_id(self.s[self.i])) { self.i += 1; }
        String::from_utf8_lossy(&self.s[s..self.i]).into_owned()
    }
    fn peek_word(&self) -> &'a [u8] {
        let mut j = self.i;
        while j < self.s.len() && is_id(self.s[j]) { j += 1; }
        &self.s[self.i..j]
    }
    fn at_type(&mut self) -> bool {
        self.ws();
        match self.peek() {
            b'{' | b'<' | b'[' | b'%' => true,
            _ => {
                let w = self.peek_word();
                matches!(w, b"void" | b"ptr" | b"float" | b"double" | b"half" | b"label" | b"metadata" | b"token" | b"fp128" | b"x86_fp80" | b"bfloat")
                    || (w.len() > 1 && w[0] == b'i' && w[1..].iter().all(|c| c.is_ascii_digit()))
            }
        }
    }
    fn parens(&mut self) {
        // skip a balanced parenthesised group; at '('
        let mut d = 0;
        loop {
            match self.peek() {
                b'(' => d += 1,
                b')' => { d -= 1; if d == 0 { self.i += 1; return; } }
                b'"' => { self.quoted(); continue; }
                0 => self.fail("parens"),
                _ => {}
            }
            self.i += 1;
        }
    }
    /// Skip attribute words until a type, or one of the stop characters.
    fn attrs(&mut self) {
        loop {
            self.ws();
            if self.at_type() { return; }
            let c = self.peek();
            if c == b'#' {
                self.i += 1;
                self.word();
            } else if c == b'"' {
                self.quoted();
                if self.peek() == b'=' { self.i += 1; self.quoted(); }
            } else if c.is_ascii_lowercase() {
                let w = self.word();
                if self.peek() == b'(' { self.parens(); }
                else if w == "align" || w == "addrspace" || w == "cc" { self.ws(); self.word(); }
            } else { return; }
        }
    }
    fn ty(&mut self) -> Ty {
        self.ws();
        match self.peek() {
            b'{' => { self.i += 1; Ty::Struct(Arc::new(self.ty_list(b'}')), false) }
            b'<' => {
                self.i += 1;
                self.ws();
                if self.peek() == b'{' {
                    self.i += 1;
                    let f = self.ty_list(b'}');
                    self.expect(">");
                    Ty::Struct(Arc::new(f), true)
                } else {
                    let n = self.uint();
                    self.expect("x");
                    let t = self.ty();
                    self.expect(">");
                    Ty::Vector(n, Arc::new(t))
                }
            }
            b'[' => {
                self.i += 1;
                let n = self.uint();
                self.expect("x");
                let t = self.ty();
                self.expect("]");
                Ty::Array(n, Arc::new(t))
            }
            b'%' => {
                let n = self.local();
                self.named(&n)
            }
            _ => {
                let w = self.word();
                match w.as_str() {
                    "void" => Ty::Void,
                    "ptr" => Ty::Ptr,
                    "float" => Ty::Float,
                    "double" => Ty::Double,
                    "half" => Ty::Int(16),
                    "opaque" | "label" | "metadata" | "token" => Ty::Opaque,
                    "fp128" | "x86_fp80" => Ty::Int(128),
                    _ if w.starts_with('i') && w.len() > 1 => match w[1..].parse() { Ok(n) => Ty::Int(n), _ => self.fail("type") },
                    _ => self.fail(&format!("type '{w}'")),
                }
            }
        }
    }
    fn named(&mut self, n: &str) -> Ty {
        if let Some(t) = self.types.get(n) { return t.clone(); }
        match self.raw_types.get(n) {
            Some(&(s, e)) => {
                let mut p = P { s: &self.full[..e], full: self.full, i: s, types: self.types, raw_types: self.raw_types };
                p.ty()
            }
            None => Ty::Opaque,
        }
    }
    fn ty_list(&mut self, close: u8) -> Vec<Ty> {
        let mut v = Vec::new();
        self.ws();
        if self.peek() == close { self.i += 1; return v; }
        loop {
            v.push(self.ty());
            self.ws();
            if self.peek() == b',' { self.i += 1; continue; }
            if self.peek() == close { self.i += 1; return v; }
            self.fail("type list");
        }
    }
    fn uint(&mut self) -> u64 { self.ws(); let w = self.word(); w.parse().unwrap_or_else(|_| self.fail("number")) }

    fn const_val(&mut self, ty: &Ty) -> Cst {
        self.ws();
        match self.peek() {
            b'@' => { let n = self.global(); Cst::Global(n.into(), 0) }
            b'c' if self.s[self.i + 1] == b'"' => {
                self.i += 2;
                let mut v = Vec::new();
                loop {
                    let c = self.s[self.i];
                    self.i += 1;
                    match c {
                        b'"' => break,
                        b'\\' => {
                            if self.s[self.i] == b'\\' { v.push(b'\\'); self.i += 1; }
                            else {
                                let h = std::str::from_utf8(&self.s[self.i..self.i + 2]).unwrap();
                                v.push(u8::from_str_radix(h, 16).unwrap());
                                self.i += 2;
                            }
                        }
                        _ => v.push(c),
                    }
                }
                Cst::Bytes(Arc::new(v))
            }
            b'{' | b'[' => {
                let close = if self.peek() == b'{' { b'}' } else { b']' };
                self.i += 1;
                self.cst_list(close)
            }
            b'<' => {
                self.i += 1;
                self.ws();
                if self.peek() == b'{' {
                    self.i += 1;
                    let r = self.cst_list(b'}');
                    self.expect(">");
                    r
                } else { self.cst_list(b'>') }
            }
            b'-' | b'0'..=b'9' => {
                let w = self.word();
                if let Ok(n) = w.parse::<i128>() {
                    let width = ty.width().unwrap_or(128);
                    Cst::Int((n as u128) & crate::expr::mask(width))
                } else if let Ok(n) = w.parse::<u128>() { Cst::Int(n) }
                else if w.starts_with("0x") || w.contains('.') || w.contains('e') {
                    // floating point literal
                    if let Some(h) = w.strip_prefix("0x") {
                        match u64::from_str_radix(h, 16) {
                            Ok(bits) => {
                                if matches!(ty, Ty::Float) { Cst::Int((f64::from_bits(bits) as f32).to_bits() as u128) } else { Cst::Int(bits as u128) }
                            }
                            _ => Cst::Bad(w.into()),
                        }
                    } else {
                        // "1.000000e+00": word() stops at '+'
                        let mut t = w.clone();
                        if self.peek() == b'+' { self.i += 1; t.push('+'); t.push_str(&self.word()); }
                        match t.parse::<f64>() {
                            Ok(x) => if matches!(ty, Ty::Float) { Cst::Int((x as f32).to_bits() as u128) } else { Cst::Int(x.to_bits() as u128) },
                            _ => Cst::Bad(t.into()),
                        }
                    }
                } else { self.fail("int const") }
            }
            _ => {
                let w = self.word();
                match w.as_str() {
                    "true" => Cst::Int(1),
                    "false" => Cst::Int(0),
                    "null" => Cst::Int(0),
                    "none" | "zeroinitializer" => Cst::Zero,
                    "undef" | "poison" => Cst::Undef,
                    "getelementptr" => {
                        loop {
                            self.ws();
                            if self.peek() == b'(' { break; }
                            self.word();
                            if self.peek() == b'(' {
                                // inrange(...) group, or the operand list
                                let save = self.i;
                                let prev = &self.s[..self.i];
                                if prev.ends_with(b"inrange") { self.parens(); } else { self.i = save; break; }
                            }
                        }
                        self.expect("(");
                        let t = self.ty();
                        self.expect(",");
                        let bt = self.ty();
                        let base = self.const_val(&bt);
                        let mut off: i64 = 0;
                        let mut cur = t;
                        let mut first = true;
                        loop {
                            self.ws();
                            if self.peek() == b',' {
                                self.i += 1;
                                let it = self.ty();
                                let iv = self.const_val(&it);
                                let n = match iv { Cst::Int(n) => crate::expr::sext128(n, it.width().unwrap()) as i64, Cst::Zero => 0, _ => return Cst::Bad("gep".into()) };
                                if first { off += n * cur.size() as i64; first = false; }
                                else {
                                    off += match &cur { Ty::Struct(..) => cur.field_offset(n as usize) as i64, _ => cur.field(0).size() as i64 * n };
                                    cur = cur.field(if matches!(cur, Ty::Struct(..)) { n as usize } else { 0 });
                                }
                            } else { break; }
                        }
                        self.expect(")");
                        match base {
                            Cst::Global(g, o) => Cst::Global(g, o + off),
                            Cst::Int(n) => Cst::Int(n.wrapping_add(off as u128) & crate::expr::mask(64)),
                            _ => Cst::Bad("gep base".into()),
                        }
                    }
                    "ptrtoint" | "inttoptr" | "bitcast" | "trunc" => {
                        self.expect("(");
                        let t = self.ty();
                        let v = self.const_val(&t);
                        self.expect("to");
                        let _ = self.ty();
                        self.expect(")");
                        if w == "trunc" { Cst::Bad("trunc".into()) } else { v }
                    }
                    "sub" | "add" => {
                        loop { self.ws(); if self.peek() == b'(' { break; } self.word(); }
                        self.parens();
                        Cst::Bad(w.into())
                    }
                    _ => {
                        if self.peek() == b'(' { self.parens(); return Cst::Bad(w.into()); }
                        self.fail(&format!("constant '{w}'"))
                    }
                }
            }
        }
    }
    fn cst_list(&mut self, close: u8) -> Cst {
        let mut v = Vec::new();
        self.ws();
        if self.peek() == close { self.i += 1; return Cst::Agg(Arc::new(v)); }
        loop {
            let t = self.ty();
            let c = self.const_val(&t);
            v.push((t, c));
            self.ws();
            if self.peek() == b',' { self.i += 1; continue; }
            if self.peek() == close { self.i += 1; return Cst::Agg(Arc::new(v)); }
            self.fail("const list");
        }
    }

    fn global_def(&mut self, m: &mut Module, module: u32) {
        let name: Arc<str> = self.global().into();
        self.expect("=");
        let mut internal = false;
        let mut external = false;
        loop {
            self.ws();
            let w = self.word();
            match w.as_str() {
                "private" | "internal" => internal = true,
                "external" | "extern_weak" => external = true,
                "thread_local" => { if self.peek() == b'(' { self.parens(); } }
                "alias" => {
                    let _ = self.ty();
                    self.expect(",");
                    let _ = self.ty();
                    let c = self.const_val(&Ty::Ptr);
                    if let Cst::Global(g, 0) = c { m.aliases.push((name, g)); }
                    return;
                }
                "global" | "constant" => {
                    let ty = self.ty();
                    let init = if external { None } else { Some(self.const_val(&ty)) };
                    m.globals.push(Global { name, ty, init, constant: w == "constant", internal, module });
                    return;
                }
                "" => self.fail("global"),
                _ => {}
            }
        }
    }

    fn opnd(&mut self, ty: &Ty, c: &mut FnCtx) -> Opnd {
        self.ws();
        if self.peek() == b'%' {
            let n = self.local();
            return Opnd::Reg(c.reg(&n));
        }
        if matches!(ty, Ty::Opaque) {
            // metadata operand
            if self.peek() == b'!' { self.i += 1; self.word(); if self.peek() == b'(' { self.parens(); } else if self.peek() == b'{' { self.i = memchr(self.s, self.i, b'}') + 1; } }
            else { self.word(); }
            return Opnd::Undef;
        }
        let k = self.const_val(ty);
        cst_opnd(k, ty)
    }
    fn topnd(&mut self, c: &mut FnCtx) -> (Ty, Opnd) {
        let t = self.ty();
        self.attrs_simple();
        let o = self.opnd(&t, c);
        (t, o)
    }
    /// Parameter attributes between an argument's type and its value.
    fn attrs_simple(&mut self) {
        loop {
            self.ws();
            let c = self.peek();
            if !c.is_ascii_lowercase() && c != b'"' { return; }
            let w = self.peek_word();
            if matches!(w, b"true" | b"false" | b"null" | b"undef" | b"poison" | b"zeroinitializer" | b"none" | b"getelementptr" | b"ptrtoint" | b"inttoptr" | b"bitcast" | b"trunc" | b"sub" | b"add" | b"blockaddress" | b"splat" | b"xor" | b"icmp" | b"asm" | b"no_cfi") { return; }
            if c == b'c' && self.s[self.i + 1] == b'"' { return; }
            if c == b'"' {
                self.quoted();
                if self.peek() == b'=' { self.i += 1; self.quoted(); }
                continue;
            }
            let w = self.word();
            if self.peek() == b'(' { self.parens(); }
            else if w == "align" { self.ws(); self.word(); }
        }
    }

    fn function(&mut self, module: u32) -> Func {
        self.expect("define");
        let mut internal = false;
        // linkage etc. and return attributes
        loop {
            self.ws();
            if self.at_type() { break; }
            let w = self.word();
            if w == "internal" || w == "private" { internal = true; }
            if self.peek() == b'(' { self.parens(); }
            if w == "align" { self.ws(); self.word(); }
            if w.is_empty() { self.fail("define"); }
        }
        let _ret = self.ty();
        let name: Arc<str> = self.global().into();
        self.expect("(");
        let mut c = FnCtx { regs: HashMap::new(), labels: HashMap::new() };
        let mut np = 0;
        self.ws();
        if self.peek() == b')' { self.i += 1; } else {
            loop {
                self.ws();
                if self.eat("...") { self.expect(")"); break; }
                let _t = self.ty();
                self.attrs_simple();
                self.ws();
                if self.peek() == b'%' { let n = self.local(); c.reg(&n); } else { c.reg(&format!("arg${np}")); }
                np += 1;
                self.ws();
                if self.peek() == b',' { self.i += 1; continue; }
                self.expect(")");
                break;
            }
        }
        // skip to the body
        self.line_end();
        let mut blocks: Vec<Option<Block>> = Vec::new();
        let mut cur: Option<(u32, Block)> = None;
        let put = |blocks: &mut Vec<Option<Block>>, cur: &mut Option<(u32, Block)>| {
            if let Some((i, b)) = cur.take() {
                while blocks.len() <= i as usize { blocks.push(None); }
                blocks[i as usize] = Some(b);
            }
        };
        let mut first = true;
        loop {
            self.wsn();
            if self.peek() == b'}' { break; }
            // label?
            let save = self.i;
            let c0 = self.peek();
            let mut lab = None;
            if c0 == b'"' || is_id(c0) {
                let n = self.ident();
                if self.peek() == b':' { self.i += 1; lab = Some(n); } else { self.i = save; }
            }
            if let Some(n) = lab {
                put(&mut blocks, &mut cur);
                let i = c.label(&n);
                cur = Some((i, Block { phis: vec![], insts: vec![] }));
                first = false;
                self.line_end();
                continue;
            }
            if first {
                let i = c.label("$entry");
                cur = Some((i, Block { phis: vec![], insts: vec![] }));
                first = false;
            }
            let blk = &mut cur.as_mut().unwrap().1;
            let at = self.i;
            let np = (blk.phis.len(), blk.insts.len());
            if std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| self.inst(blk, &mut c))).is_err() {
                // not understood: an error if it is ever reached
                self.i = at;
                blk.phis.truncate(np.0);
                blk.insts.truncate(np.1);
                let e = memchr(self.s, at, b'\n').min(at + 120);
                blk.insts.push(Inst::Unsupported(String::from_utf8_lossy(&self.s[at..e]).as_ref().into()));
                // skip the rest of a multi-line instruction
                while { let e = memchr(self.s, self.i, b'\n'); let l = &self.s[self.i..e]; (l.ends_with(b"[") && !l.contains(&b']')) || l.ends_with(b",") } { self.line_end(); self.i += 1; }
            }
            self.line_end();
        }
        put(&mut blocks, &mut cur);
        let n = c.labels.len();
        while blocks.len() < n { blocks.push(None); }
        // the entry block must be block 0: rustc labels it "start", always first
        Func { name, nparams: np, nregs: c.regs.len() as u32, blocks: blocks.into_iter().map(|b| b.unwrap_or(Block { phis: vec![], insts: vec![Inst::Unsupported("missing block".into())] })).collect(), internal, module }
    }

    fn inst(&mut self, blk: &mut Block, c: &mut FnCtx) {
        let start = self.i;
        let mut dst = None;
        if self.peek() == b'%' {
            let n = self.local();
            self.expect("=");
            dst = Some(c.reg(&n));
            self.ws();
        }
        if self.peek() == b'#' {
            // debug records: #dbg_value(...)
            return;
        }
        let op = self.word();
        let d = dst.unwrap_or(u32::MAX);
        let i = match op.as_str() {
            "add" | "sub" | "mul" | "udiv" | "sdiv" | "urem" | "srem" | "shl" | "lshr" | "ashr" | "and" | "or" | "xor" => {
                self.flags();
                let t = self.ty();
                let a = self.opnd(&t, c);
                self.expect(",");
                let b = self.opnd(&t, c);
                let bo = match op.as_str() {
                    "add" => BinOp::Add, "sub" => BinOp::Sub, "mul" => BinOp::Mul, "udiv" => BinOp::UDiv, "sdiv" => BinOp::SDiv,
                    "urem" => BinOp::URem, "srem" => BinOp::SRem, "shl" => BinOp::Shl, "lshr" => BinOp::LShr, "ashr" => BinOp::AShr,
                    "and" => BinOp::And, "or" => BinOp::Or, _ => BinOp::Xor,
                };
                match t.width() { Some(w) => Inst::Bin(bo, w, d, a, b), None => self.unsup(start) }
            }
            "fadd" | "fsub" | "fmul" | "fdiv" | "frem" | "fneg" => {
                self.flags();
                let t = self.ty();
                let a = self.opnd(&t, c);
                let b = if op == "fneg" { Opnd::K(0) } else { self.expect(","); self.opnd(&t, c) };
                let o = match op.as_str() { "fadd" => FOp::Add, "fsub" => FOp::Sub, "fmul" => FOp::Mul, "fdiv" => FOp::Div, "frem" => FOp::Rem, _ => FOp::Neg };
                match t { Ty::Float | Ty::Double => Inst::Fbin(o, t.bits() as u32, d, a, b), _ => self.unsup(start) }
            }
            "fcmp" => {
                self.flags();
                self.ws();
                let w = self.word();
                let t = self.ty();
                let a = self.opnd(&t, c);
                self.expect(",");
                let b = self.opnd(&t, c);
                let u = w.starts_with('u');
                let p = match w.as_str() {
                    "true" => [true; 4], "false" => [false; 4], "ord" => [true, true, true, false], "uno" => [false, false, false, true],
                    _ => match &w[1..] {
                        "lt" => [true, false, false, u], "le" => [true, true, false, u], "eq" => [false, true, false, u],
                        "ge" => [false, true, true, u], "gt" => [false, false, true, u], _ => [true, false, true, u],
                    },
                };
                match t { Ty::Float | Ty::Double => Inst::Fcmp(p, t.bits() as u32, d, a, b), _ => self.unsup(start) }
            }
            "sitofp" | "uitofp" | "fptosi" | "fptoui" | "fpext" | "fptrunc" => {
                self.flags();
                let t = self.ty();
                let a = self.opnd(&t, c);
                self.expect("to");
                let t2 = self.ty();
                let k = match op.as_str() { "sitofp" => FCast::FromS, "uitofp" => FCast::FromU, "fptosi" => FCast::ToS, "fptoui" => FCast::ToU, "fpext" => FCast::Ext, _ => FCast::Trunc };
                match (t.width(), t2.width()) { (Some(w), Some(w2)) if w <= 64 && w2 <= 64 => Inst::Fcast(k, w, w2, d, a), _ => self.unsup(start) }
            }
            "icmp" => {
                self.ws();
                let mut w = self.word();
                if w == "samesign" { self.ws(); w = self.word(); }
                let t = self.ty();
                let a = self.opnd(&t, c);
                self.expect(",");
                let b = self.opnd(&t, c);
                let p = match w.as_str() {
                    "eq" => Pred::Eq, "ne" => Pred::Ne, "ult" => Pred::Ult, "ule" => Pred::Ule, "ugt" => Pred::Ugt, "uge" => Pred::Uge,
                    "slt" => Pred::Slt, "sle" => Pred::Sle, "sgt" => Pred::Sgt, "sge" => Pred::Sge, _ => self.fail("icmp"),
                };
                match t.width() { Some(w) => Inst::Icmp(p, w, d, a, b), None => self.unsup(start) }
            }
            "zext" | "sext" | "trunc" | "ptrtoint" | "inttoptr" | "bitcast" | "addrspacecast" | "ptrtoaddr" => {
                self.flags();
                let t = self.ty();
                let a = self.opnd(&t, c);
                self.expect("to");
                let t2 = self.ty();
                match (t.width(), t2.width()) {
                    (Some(w), Some(w2)) => match op.as_str() {
                        "zext" => Inst::Zext(w, w2, d, a),
                        "sext" => Inst::Sext(w, w2, d, a),
                        "trunc" => Inst::Trunc(w, w2, d, a),
                        _ => if w == w2 { Inst::Mov(d, a) } else if w > w2 { Inst::Trunc(w, w2, d, a) } else { Inst::Zext(w, w2, d, a) },
                    },
                    _ => self.unsup(start),
                }
            }
            "select" => {
                self.flags();
                let (_, k) = self.topnd(c);
                self.expect(",");
                let (t, a) = self.topnd(c);
                self.expect(",");
                let (_, b) = self.topnd(c);
                if t.width().is_none() && !t.is_agg() { self.unsup(start) } else { Inst::Select(t.width(), d, k, a, b) }
            }
            "freeze" => {
                let (t, a) = self.topnd(c);
                Inst::Freeze(d, t, a)
            }
            "load" => {
                let atomic = self.eatw("atomic");
                self.eatw("volatile");
                let t = self.ty();
                self.expect(",");
                let (_, p) = self.topnd(c);
                if matches!(t, Ty::Vector(..)) { self.unsup(start) } else { Inst::Load(d, t, p, atomic) }
            }
            "store" => {
                let atomic = self.eatw("atomic");
                self.eatw("volatile");
                let (t, v) = self.topnd(c);
                self.expect(",");
                let (_, p) = self.topnd(c);
                if matches!(t, Ty::Vector(..)) { self.unsup(start) } else { Inst::Store(t, v, p, atomic) }
            }
            "getelementptr" => {
                loop {
                    self.ws();
                    if self.at_type() { break; }
                    self.word();
                    if self.peek() == b'(' { self.parens(); }
                }
                let t = self.ty();
                self.expect(",");
                let (bt, base) = self.topnd(c);
                let mut off = 0i64;
                let mut terms = Vec::new();
                let mut cur = t;
                let mut first = true;
                loop {
                    self.ws();
                    if self.peek() != b',' { break; }
                    self.i += 1;
                    self.ws();
                    if self.peek() == b'!' { break; }
                    let (it, iv) = self.topnd(c);
                    let scale;
                    if first { scale = cur.size() as i64; first = false; }
                    else {
                        match &cur {
                            Ty::Struct(..) => {
                                let n = match iv { Opnd::K(n) => n as usize, _ => self.fail("struct index") };
                                off += cur.field_offset(n) as i64;
                                cur = cur.field(n);
                                continue;
                            }
                            _ => { cur = cur.field(0); scale = cur.size() as i64; }
                        }
                    }
                    let w = it.width().unwrap();
                    match iv {
                        Opnd::K(n) => off = off.wrapping_add((crate::expr::sext128(n as u128, w) as i64).wrapping_mul(scale)),
                        _ => terms.push((iv, w, scale)),
                    }
                }
                if bt.width().is_none() { self.unsup(start) } else { Inst::Gep(d, base, off, terms) }
            }
            "alloca" => {
                let t = self.ty();
                let mut n = 1u64;
                let mut al = t.align();
                while self.eatw(",") {
                    self.ws();
                    if self.eat("align") { al = self.uint(); }
                    else if self.peek() == b'!' { break; }
                    else { let (_, o) = self.topnd(c); n = match o { Opnd::K(k) => k, _ => self.fail("dynamic alloca") }; }
                }
                Inst::Alloca(d, t.size() * n, al)
            }
            "phi" => {
                self.flags();
                let t = self.ty();
                let mut v = Vec::new();
                loop {
                    self.expect("[");
                    let o = self.opnd(&t, c);
                    self.expect(",");
                    let l = self.local();
                    let l = c.label(&l);
                    self.expect("]");
                    v.push((l, o));
                    self.ws();
                    if self.peek() == b',' {
                        let save = self.i;
                        self.i += 1;
                        self.ws();
                        if self.peek() == b'[' { continue; }
                        self.i = save;
                    }
                    break;
                }
                blk.phis.push((d, v));
                return;
            }
            "br" => {
                let t = self.ty();
                if let Ty::Int(_) = t {
                    let k = self.opnd(&t, c);
                    self.expect(",");
                    self.expect("label");
                    let a = self.local();
                    self.expect(",");
                    self.expect("label");
                    let b = self.local();
                    let (a, b) = (c.label(&a), c.label(&b));
                    Inst::CondBr(k, a, b)
                } else {
                    let a = self.local();
                    Inst::Br(c.label(&a))
                }
            }
            "switch" => {
                let (t, v) = self.topnd(c);
                self.expect(",");
                self.expect("label");
                let dl = self.local();
                let dl = c.label(&dl);
                self.expect("[");
                let mut cases = Vec::new();
                loop {
                    self.wsn();
                    if self.peek() == b']' { self.i += 1; break; }
                    let (_, k) = self.topnd(c);
                    self.expect(",");
                    self.expect("label");
                    let l = self.local();
                    let l = c.label(&l);
                    match k { Opnd::K(n) => cases.push((n, l)), _ => self.fail("switch case") }
                }
                Inst::Switch(t.width().unwrap(), v, dl, cases)
            }
            "ret" => {
                let t = self.ty();
                if matches!(t, Ty::Void) { Inst::Ret(None) } else { let v = self.opnd(&t, c); Inst::Ret(Some(v)) }
            }
            "unreachable" => Inst::Unreachable,
            "resume" => { let (_, v) = self.topnd(c); Inst::Resume(v) }
            "fence" => Inst::Fence,
            "landingpad" => {
                let _ = self.ty();
                let (mut cleanup, mut catch, mut filter) = (false, false, false);
                loop {
                    let save = self.i;
                    self.wsn();
                    if self.eat("cleanup") { cleanup = true; self.line_end(); }
                    else if self.eat("catch") { catch = true; self.line_end(); }
                    else if self.eat("filter") { filter = true; self.line_end(); }
                    else if self.peek() == b'!' || self.peek() == b',' { self.line_end(); }
                    else { self.i = save; break; }
                }
                // step back so that line_end() of the caller does not skip an instruction
                if self.peek() != b'\n' {
                    while self.s[self.i] != b'\n' { self.i -= 1; }
                }
                Inst::Landingpad { dst: d, cleanup, catch, filter }
            }
            "extractvalue" => {
                let (t, a) = self.topnd(c);
                let mut idx = Vec::new();
                while self.eatw(",") { self.ws(); if self.peek() == b'!' { break; } idx.push(self.uint() as u32); }
                let _ = t;
                Inst::ExtractValue(d, a, idx)
            }
            "insertvalue" => {
                let (t, a) = self.topnd(c);
                self.expect(",");
                let (_, b) = self.topnd(c);
                let mut idx = Vec::new();
                while self.eatw(",") { self.ws(); if self.peek() == b'!' { break; } idx.push(self.uint() as u32); }
                Inst::InsertValue(d, t, a, b, idx)
            }
            "atomicrmw" => {
                self.eatw("volatile");
                self.ws();
                let w = self.word();
                let (_, p) = self.topnd(c);
                self.expect(",");
                let (t, v) = self.topnd(c);
                let k = match w.as_str() {
                    "xchg" => Rmw::Xchg, "add" => Rmw::Add, "sub" => Rmw::Sub, "and" => Rmw::And, "or" => Rmw::Or, "xor" => Rmw::Xor,
                    "nand" => Rmw::Nand, "max" => Rmw::Max, "min" => Rmw::Min, "umax" => Rmw::UMax, "umin" => Rmw::UMin,
                    _ => { let i = self.unsup(start); blk.insts.push(i); return; }
                };
                Inst::AtomicRmw(k, t.width().unwrap(), d, p, v)
            }
            "cmpxchg" => {
                self.eatw("weak");
                self.eatw("volatile");
                let (_, p) = self.topnd(c);
                self.expect(",");
                let (t, a) = self.topnd(c);
                self.expect(",");
                let (_, b) = self.topnd(c);
                Inst::CmpXchg(t.width().unwrap(), d, p, a, b)
            }
            "call" | "invoke" | "tail" | "musttail" | "notail" => {
                let invoke = op == "invoke";
                if op == "tail" || op == "musttail" || op == "notail" { self.expect("call"); }
                self.attrs();
                let mut ret = self.ty();
                self.ws();
                if self.peek() == b'(' {
                    // full function type
                    self.parens();
                }
                self.ws();
                if let Ty::Opaque = ret { ret = Ty::Void; }
                let callee = if self.peek() == b'@' { let n = self.global(); Callee::Name(n.into()) }
                    else if self.peek() == b'%' { let n = self.local(); Callee::Ind(Opnd::Reg(c.reg(&n))) }
                    else if self.eat("asm") {
                        // inline assembly: skip flags, two strings
                        loop { self.ws(); if self.peek() == b'"' { break; } self.word(); }
                        let s = self.quoted();
                        self.expect(",");
                        self.ws();
                        self.quoted();
                        if s.trim().is_empty() { Callee::Builtin(Builtin::Nop) } else { Callee::Missing("inline asm".into()) }
                    }
                    else { let k = self.const_val(&Ty::Ptr); Callee::Ind(cst_opnd(k, &Ty::Ptr)) };
                self.expect("(");
                let mut args = Vec::new();
                self.ws();
                if self.peek() == b')' { self.i += 1; } else {
                    loop {
                        let a = self.topnd(c);
                        args.push(a);
                        self.ws();
                        if self.peek() == b',' { self.i += 1; continue; }
                        self.expect(")");
                        break;
                    }
                }
                let mut unwind = None;
                if invoke {
                    // attributes, then "to label %x unwind label %y"
                    loop {
                        self.wsn();
                        if self.eat("to") { break; }
                        if self.peek() == b'#' { self.i += 1; self.word(); }
                        else if self.peek() == b'"' { self.quoted(); if self.peek() == b'=' { self.i += 1; self.quoted(); } }
                        else if self.peek() == b'[' { self.i = memchr(self.s, self.i, b']') + 1; }
                        else { let w = self.word(); if w.is_empty() { self.fail("invoke"); } if self.peek() == b'(' { self.parens(); } }
                    }
                    self.expect("label");
                    let a = self.local();
                    self.wsn();
                    self.expect("unwind");
                    self.expect("label");
                    let b = self.local();
                    unwind = Some((c.label(&a), c.label(&b)));
                }
                Inst::Call { dst, ret, callee, args, unwind }
            }
            _ => self.unsup(start),
        };
        blk.insts.push(i);
    }
    fn unsup(&mut self, start: usize) -> Inst {
        let e = memchr(self.s, start, b'\n');
        self.i = self.i.min(e);
        Inst::Unsupported(String::from_utf8_lossy(&self.s[start..e]).into_owned().into())
    }
    fn flags(&mut self) {
        loop {
            self.ws();
            if self.at_type() { return; }
            let w = self.word();
            if w.is_empty() { self.fail("flags"); }
        }
    }
}

fn cst_opnd(k: Cst, ty: &Ty) -> Opnd {
    match k {
        Cst::Int(n) => if ty.width().unwrap_or(64) <= 64 { Opnd::K(n as u64) } else { Opnd::Wide(n) },
        Cst::Undef => Opnd::Undef,
        Cst::Zero => zero(ty),
        Cst::Agg(v) => Opnd::Agg(Arc::new(v.iter().map(|(t, c)| cst_opnd(c.clone(), t)).collect())),
        Cst::Global(..) => Opnd::Cst(k),
        _ => Opnd::Bad,
    }
}

pub fn zero(ty: &Ty) -> Opnd {
    match ty {
        Ty::Struct(..) | Ty::Array(..) => Opnd::Agg(Arc::new((0..ty.nfields()).map(|i| zero(&ty.field(i))).collect())),
        Ty::Int(w) if *w > 64 => Opnd::Wide(0),
        _ => Opnd::K(0),
    }
}
