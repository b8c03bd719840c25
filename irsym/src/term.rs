//! Hash-consed term DAG produced by symbolic execution.
use std::collections::HashMap;

pub type TermId = u32;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Sort {
    F32,
    F64,
    I(u32),
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Node {
    pub op: &'static str,
    pub sort: Sort,
    pub args: Vec<TermId>,
    pub imm: u128,
}

#[derive(Default)]
pub struct Terms {
    pub nodes: Vec<Node>,
    map: HashMap<Node, TermId>,
    names: HashMap<String, &'static str>,
    pub varnames: HashMap<TermId, String>,
}

impl Terms {
    pub fn intern(&mut self, s: &str) -> &'static str {
        if let Some(x) = self.names.get(s) {
            return x;
        }
        let l: &'static str = Box::leak(s.to_string().into_boxed_str());
        self.names.insert(s.to_string(), l);
        l
    }
    pub fn mk(&mut self, op: &'static str, sort: Sort, args: Vec<TermId>, imm: u128) -> TermId {
        let n = Node { op, sort, args, imm };
        if let Some(i) = self.map.get(&n) {
            return *i;
        }
        let id = self.nodes.len() as u32;
        self.nodes.push(n.clone());
        self.map.insert(n, id);
        id
    }
    pub fn var(&mut self, name: &str, sort: Sort) -> TermId {
        let k = self.varnames.iter().find(|(_, n)| n.as_str() == name).map(|(i, _)| *i);
        if let Some(i) = k {
            return i;
        }
        let id = self.nodes.len() as u32;
        let t = self.mk("var", sort, vec![], id as u128);
        self.varnames.insert(t, name.to_string());
        t
    }
    pub fn con(&mut self, sort: Sort, bits: u128) -> TermId {
        self.mk("const", sort, vec![], bits)
    }
    pub fn sort(&self, t: TermId) -> Sort {
        self.nodes[t as usize].sort
    }
    pub fn is_const(&self, t: TermId) -> Option<u128> {
        let n = &self.nodes[t as usize];
        if n.op == "const" {
            Some(n.imm)
        } else {
            None
        }
    }
    pub fn not(&mut self, t: TermId) -> TermId {
        if let Some(c) = self.is_const(t) {
            return self.con(Sort::I(1), c ^ 1);
        }
        let n = &self.nodes[t as usize];
        if n.op == "not" {
            return n.args[0];
        }
        self.mk("not", Sort::I(1), vec![t], 0)
    }
    pub fn bin(&mut self, op: &'static str, sort: Sort, a: TermId, b: TermId) -> TermId {
        let (ca, cb) = (self.is_const(a), self.is_const(b));
        if sort == Sort::I(1) {
            match op {
                "and" | "mul" => {
                    if ca == Some(0) || cb == Some(0) {
                        return self.con(sort, 0);
                    }
                    if ca == Some(1) {
                        return b;
                    }
                    if cb == Some(1) || a == b {
                        return a;
                    }
                    return self.mk("and", sort, vec![a, b], 0);
                }
                "or" => {
                    if ca == Some(1) || cb == Some(1) {
                        return self.con(sort, 1);
                    }
                    if ca == Some(0) {
                        return b;
                    }
                    if cb == Some(0) || a == b {
                        return a;
                    }
                    return self.mk("or", sort, vec![a, b], 0);
                }
                "xor" | "add" | "sub" => {
                    if ca == Some(0) {
                        return b;
                    }
                    if cb == Some(0) {
                        return a;
                    }
                    if ca == Some(1) {
                        return self.not(b);
                    }
                    if cb == Some(1) {
                        return self.not(a);
                    }
                    if a == b {
                        return self.con(sort, 0);
                    }
                    return self.mk("xor", sort, vec![a, b], 0);
                }
                _ => {}
            }
        }
        if let Sort::I(_) = sort {
            match op {
                "add" | "or" | "xor" => {
                    if ca == Some(0) {
                        return b;
                    }
                    if cb == Some(0) {
                        return a;
                    }
                }
                "sub" | "shl" | "lshr" | "ashr" => {
                    if cb == Some(0) {
                        return a;
                    }
                }
                "and" | "mul" => {
                    if ca == Some(0) || cb == Some(0) {
                        return self.con(sort, 0);
                    }
                    if op == "mul" && cb == Some(1) {
                        return a;
                    }
                    if op == "mul" && ca == Some(1) {
                        return b;
                    }
                }
                _ => {}
            }
        }
        self.mk(op, sort, vec![a, b], 0)
    }
    pub fn ite(&mut self, c: TermId, a: TermId, b: TermId) -> TermId {
        if let Some(k) = self.is_const(c) {
            return if k == 1 { a } else { b };
        }
        if a == b {
            return a;
        }
        let s = self.sort(a);
        if s == Sort::I(1) {
            let (ca, cb) = (self.is_const(a), self.is_const(b));
            match (ca, cb) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not(c),
                (Some(1), _) => return self.bin("or", s, c, b),
                (Some(0), _) => {
                    let n = self.not(c);
                    return self.bin("and", s, n, b);
                }
                (_, Some(0)) => return self.bin("and", s, c, a),
                (_, Some(1)) => {
                    let n = self.not(c);
                    return self.bin("or", s, n, a);
                }
                _ => {}
            }
        }
        let cn = &self.nodes[c as usize];
        if cn.op == "not" {
            let c2 = cn.args[0];
            return self.mk("ite", s, vec![c2, b, a], 0);
        }
        self.mk("ite", s, vec![c, a, b], 0)
    }
    pub fn icmp(&mut self, pred: &'static str, a: TermId, b: TermId) -> TermId {
        let b1 = Sort::I(1);
        if a == b {
            let v = matches!(pred, "eq" | "uge" | "ule" | "sge" | "sle");
            return self.con(b1, v as u128);
        }
        if pred == "ne" {
            let e = self.icmp("eq", a, b);
            return self.not(e);
        }
        if self.is_const(a).is_some() && self.is_const(b).is_none() {
            let p = match pred {
                "eq" => "eq",
                "ugt" => "ult",
                "uge" => "ule",
                "ult" => "ugt",
                "ule" => "uge",
                "sgt" => "slt",
                "sge" => "sle",
                "slt" => "sgt",
                "sle" => "sge",
                x => x,
            };
            return self.icmp(p, b, a);
        }
        if let Some(k) = self.is_const(b) {
            let n = self.nodes[a as usize].clone();
            if n.sort == b1 && pred == "eq" {
                return if k == 1 { a } else { self.not(a) };
            }
            if n.op == "zext" && pred == "eq" {
                if let Sort::I(w) = self.sort(n.args[0]) {
                    if w < 128 && (k >> w) != 0 {
                        return self.con(b1, 0);
                    }
                    let kk = self.con(Sort::I(w), k);
                    return self.icmp("eq", n.args[0], kk);
                }
            }
            if n.op == "ite" {
                let (x, y) = (n.args[1], n.args[2]);
                if self.is_const(x).is_some() || self.is_const(y).is_some() {
                    let fx = self.icmp_fold(pred, x, b);
                    let fy = self.icmp_fold(pred, y, b);
                    if let (Some(fx), Some(fy)) = (fx, fy) {
                        let fx = self.con(b1, fx as u128);
                        let fy = self.con(b1, fy as u128);
                        return self.ite(n.args[0], fx, fy);
                    }
                    let ax = self.icmp(pred, x, b);
                    let ay = self.icmp(pred, y, b);
                    return self.ite(n.args[0], ax, ay);
                }
            }
        }
        if let Some(v) = self.icmp_fold(pred, a, b) {
            return self.con(b1, v as u128);
        }
        let op = match pred {
            "eq" => "eq",
            "ugt" => "bvugt",
            "uge" => "bvuge",
            "ult" => "bvult",
            "ule" => "bvule",
            "sgt" => "bvsgt",
            "sge" => "bvsge",
            "slt" => "bvslt",
            "sle" => "bvsle",
            _ => panic!(),
        };
        self.mk(op, b1, vec![a, b], 0)
    }
    fn icmp_fold(&self, pred: &str, a: TermId, b: TermId) -> Option<bool> {
        let (x, y) = (self.is_const(a)?, self.is_const(b)?);
        let w = match self.sort(a) {
            Sort::I(w) => w,
            _ => return None,
        };
        Some(crate::icmp_const(pred, x, y, w))
    }
    pub fn cast(&mut self, op: &'static str, to: Sort, a: TermId) -> TermId {
        if self.sort(a) == to && matches!(op, "zext" | "sext" | "trunc" | "bitcast") {
            return a;
        }
        let n = self.nodes[a as usize].clone();
        match op {
            "bitcast" => {
                if n.op == "bitcast" && self.sort(n.args[0]) == to {
                    return n.args[0];
                }
                if n.op == "const" {
                    return self.con(to, n.imm);
                }
            }
            "zext" => {
                if n.op == "const" {
                    return self.con(to, n.imm);
                }
                if n.op == "zext" {
                    return self.mk("zext", to, n.args, 0);
                }
            }
            "trunc" => {
                let tw = if let Sort::I(w) = to { w } else { 0 };
                if n.op == "const" {
                    let m = if tw >= 128 { u128::MAX } else { (1u128 << tw) - 1 };
                    return self.con(to, n.imm & m);
                }
                if n.op == "zext" {
                    if let Sort::I(w) = self.sort(n.args[0]) {
                        if w == tw {
                            return n.args[0];
                        }
                        if w < tw {
                            return self.mk("zext", to, n.args, 0);
                        }
                    }
                }
                return self.extract(a, 0, tw);
            }
            "fpext" => {}
            _ => {}
        }
        self.mk(op, to, vec![a], 0)
    }
    /// extract `w` bits starting at bit `lo` of an integer term
    pub fn extract(&mut self, a: TermId, lo: u32, w: u32) -> TermId {
        let n = self.nodes[a as usize].clone();
        let aw = match n.sort {
            Sort::I(x) => x,
            _ => panic!("extract from float"),
        };
        if lo == 0 && w == aw {
            return a;
        }
        match n.op {
            "const" => {
                let m = if w >= 128 { u128::MAX } else { (1u128 << w) - 1 };
                return self.con(Sort::I(w), (n.imm >> lo) & m);
            }
            "concat" => {
                // args low to high
                let mut o = 0;
                for x in n.args.iter() {
                    let xw = match self.sort(*x) {
                        Sort::I(k) => k,
                        _ => unreachable!(),
                    };
                    if lo >= o && lo + w <= o + xw {
                        return self.extract(*x, lo - o, w);
                    }
                    o += xw;
                }
            }
            "extract" => {
                return self.extract(n.args[0], n.imm as u32 + lo, w);
            }
            "zext" => {
                if let Sort::I(xw) = self.sort(n.args[0]) {
                    if lo + w <= xw {
                        return self.extract(n.args[0], lo, w);
                    }
                    if lo >= xw {
                        return self.con(Sort::I(w), 0);
                    }
                }
            }
            "lshr" => {
                if let Some(k) = self.is_const(n.args[1]) {
                    if lo + w + k as u32 <= aw {
                        return self.extract(n.args[0], lo + k as u32, w);
                    }
                }
            }
            "or" => {
                let x = self.extract(n.args[0], lo, w);
                let y = self.extract(n.args[1], lo, w);
                return self.bin("or", Sort::I(w), x, y);
            }
            "shl" => {
                if let Some(k) = self.is_const(n.args[1]) {
                    let k = k as u32;
                    if lo + w <= k {
                        return self.con(Sort::I(w), 0);
                    }
                    if lo >= k {
                        return self.extract(n.args[0], lo - k, w);
                    }
                }
            }
            _ => {}
        }
        self.mk("extract", Sort::I(w), vec![a], lo as u128)
    }
    /// concatenate integer terms, low part first
    pub fn concat(&mut self, parts: Vec<TermId>) -> TermId {
        if parts.len() == 1 {
            return parts[0];
        }
        let mut w = 0;
        for p in parts.iter() {
            if let Sort::I(k) = self.sort(*p) {
                w += k
            }
        }
        // adjacent extracts of one term covering it entirely
        let f = self.nodes[parts[0] as usize].clone();
        if f.op == "extract" {
            let src = f.args[0];
            let mut o = f.imm as u32;
            let lo = o;
            let mut ok = true;
            for p in parts.iter() {
                let n = &self.nodes[*p as usize];
                if n.op != "extract" || n.args[0] != src || n.imm as u32 != o {
                    ok = false;
                    break;
                }
                if let Sort::I(k) = n.sort {
                    o += k
                }
            }
            if ok {
                return self.extract(src, lo, w);
            }
        }
        if parts.iter().all(|p| self.is_const(*p).is_some()) {
            let mut v = 0u128;
            let mut o = 0;
            for p in parts.iter() {
                v |= self.is_const(*p).unwrap() << o;
                if let Sort::I(k) = self.sort(*p) {
                    o += k
                }
            }
            return self.con(Sort::I(w), v);
        }
        self.mk("concat", Sort::I(w), parts, 0)
    }
}
