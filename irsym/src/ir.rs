//! Parser for the textual LLVM IR (as printed by llvm-dis) of the linked program.
use crate::term::TermId;
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Void,
    Int(u32),
    F32,
    F64,
    Ptr,
    Vec(usize, Rc<Ty>),
    Arr(usize, Rc<Ty>),
    Struct(Rc<Vec<Ty>>, bool),
    Other,
}

impl Ty {
    pub fn size(&self) -> u64 {
        match self {
            Ty::Void | Ty::Other => 0,
            Ty::Int(n) => {
                let b = ((*n as u64) + 7) / 8;
                let mut p = 1;
                while p < b {
                    p *= 2
                }
                p
            }
            Ty::F32 => 4,
            Ty::F64 | Ty::Ptr => 8,
            Ty::Vec(n, t) => {
                if **t == Ty::Int(1) {
                    ((*n as u64) + 7) / 8
                } else {
                    (*n as u64) * t.size()
                }
            }
            Ty::Arr(n, t) => (*n as u64) * t.size(),
            Ty::Struct(f, packed) => {
                let mut o = 0;
                for t in f.iter() {
                    if !packed {
                        o = align_up(o, t.align());
                    }
                    o += t.size();
                }
                if !packed {
                    o = align_up(o, self.align());
                }
                o
            }
        }
    }
    pub fn align(&self) -> u64 {
        match self {
            Ty::Void | Ty::Other => 1,
            Ty::Int(_) => self.size().min(16),
            Ty::F32 => 4,
            Ty::F64 | Ty::Ptr => 8,
            Ty::Vec(..) => self.size(),
            Ty::Arr(_, t) => t.align(),
            Ty::Struct(f, packed) => {
                if *packed {
                    1
                } else {
                    f.iter().map(|t| t.align()).max().unwrap_or(1)
                }
            }
        }
    }
    pub fn field(&self, i: usize) -> (u64, Ty) {
        match self {
            Ty::Arr(_, t) | Ty::Vec(_, t) => (i as u64 * t.size(), (**t).clone()),
            Ty::Struct(f, packed) => {
                let mut o = 0;
                for (k, t) in f.iter().enumerate() {
                    if !packed {
                        o = align_up(o, t.align());
                    }
                    if k == i {
                        return (o, t.clone());
                    }
                    o += t.size();
                }
                panic!("field index")
            }
            _ => panic!("field of scalar"),
        }
    }
    pub fn nfields(&self) -> usize {
        match self {
            Ty::Arr(n, _) | Ty::Vec(n, _) => *n,
            Ty::Struct(f, _) => f.len(),
            _ => 0,
        }
    }
    pub fn is_agg(&self) -> bool {
        matches!(self, Ty::Vec(..) | Ty::Arr(..) | Ty::Struct(..))
    }
}

pub fn align_up(x: u64, a: u64) -> u64 {
    (x + a - 1) / a * a
}

#[derive(Clone, Debug)]
pub enum Val {
    I(u64),
    W(u128),
    F32(u32),
    F64(u64),
    T(TermId),
    Agg(Rc<Vec<Val>>),
    Undef,
}

#[derive(Clone, Debug)]
pub enum Op {
    Reg(u32),
    C(Val),
}

#[derive(Clone, Debug)]
pub enum Callee {
    Direct(usize),
    Named(Rc<str>),
    Indirect(Op),
    Asm,
}

#[derive(Clone, Debug)]
pub enum Ins {
    Bin(&'static str, Ty, Op, Op),
    Icmp(&'static str, Ty, Op, Op),
    Fcmp(&'static str, Ty, Op, Op),
    Fneg(Ty, Op),
    Cast(&'static str, Ty, Op, Ty),
    Select(Ty, Op, Ty, Op, Op),
    Gep(Op, i64, Vec<(Ty, Op, i64)>),
    Load(Ty, Op),
    Store(Ty, Op, Op),
    Alloca(Ty, Op),
    Call { callee: Callee, args: Vec<(Ty, Op)>, ret: Ty, normal: Option<u32> },
    ExtractV(Op, Vec<usize>),
    InsertV(Ty, Op, Op, Vec<usize>),
    ExtractE(Op, Op),
    InsertE(Ty, Op, Op, Op),
    Shuffle(Ty, Op, Op, Vec<Option<usize>>),
    Freeze(Op),
    Rmw(Rc<str>, Ty, Op, Op),
    Cmpxchg(Ty, Op, Op, Op),
    Fence,
    Br(u32),
    CondBr(Op, u32, u32),
    Switch(Ty, Op, u32, Vec<(u64, u32)>),
    Ret(Option<(Ty, Op)>),
    Unreachable,
    Unsupported(Rc<str>),
}

pub struct Block {
    pub phis: Vec<(u32, Vec<(u32, Op)>)>, // dest, [(pred block, value)]
    pub ins: Vec<(Option<u32>, Ins)>,
}

pub struct Func {
    pub name: String,
    pub params: Vec<u32>,
    pub nregs: usize,
    pub blocks: Vec<Block>,
}

pub struct GlobalDef {
    pub name: String,
    pub ty: Ty,
    pub init: Option<(usize, usize)>, // byte range of initialiser text
    pub constant: bool,
}

pub struct Module {
    pub text: Vec<u8>,
    pub globals: Vec<GlobalDef>,
    pub gidx: HashMap<String, usize>,
    pub fdefs: Vec<(String, usize, usize)>, // name, start offset of define line, end offset
    pub fidx: HashMap<String, usize>,
    pub externs: Vec<String>, // declared functions, address space after fdefs
    pub eidx: HashMap<String, usize>,
    pub types: HashMap<String, Ty>,
}

pub const FN_BASE: u64 = 0x7000_0000_0000_0000;
pub const GLOBAL_ID_BASE: u64 = 1; // alloc ids 1..=n are globals

pub fn alloc_base(id: u64) -> u64 {
    id << 32
}

impl Module {
    pub fn parse(text: Vec<u8>) -> Module {
        let mut m = Module {
            text,
            globals: vec![],
            gidx: HashMap::new(),
            fdefs: vec![],
            fidx: HashMap::new(),
            externs: vec![],
            eidx: HashMap::new(),
            types: HashMap::new(),
        };
        let text = std::mem::take(&mut m.text);
        let n = text.len();
        let mut i = 0;
        let mut aliases: Vec<(String, usize, usize)> = vec![];
        while i < n {
            let e = text[i..].iter().position(|c| *c == b'\n').map(|p| i + p).unwrap_or(n);
            let line = &text[i..e];
            if line.starts_with(b"define") {
                let name = global_name_in(line);
                // find end "\n}\n"
                let mut j = e + 1;
                loop {
                    let ee = text[j..].iter().position(|c| *c == b'\n').map(|p| j + p).unwrap_or(n);
                    if &text[j..ee] == b"}" {
                        j = ee;
                        break;
                    }
                    j = ee + 1;
                }
                m.fidx.insert(name.clone(), m.fdefs.len());
                m.fdefs.push((name, i, j));
                i = j + 1;
                continue;
            } else if line.starts_with(b"declare") {
                let name = global_name_in(line);
                m.eidx.insert(name.clone(), m.externs.len());
                m.externs.push(name);
            } else if line.starts_with(b"@") {
                // global or alias
                let (name, p) = parse_gname(line, 1);
                let rest = &line[p..];
                let s = String::from_utf8_lossy(&rest[..rest.len().min(200)]).to_string();
                let words: Vec<&str> = s.split_whitespace().collect();
                if words.iter().take(8).any(|w| *w == "alias") {
                    aliases.push((name, i, e));
                } else {
                    // find ' global ' or ' constant ' keyword at top level
                    let mut q = p;
                    let mut constant = false;
                    let mut external = false;
                    let mut ps = P { s: line, i: q, m: &m, regs: None };
                    ps.ws();
                    ps.expect("=");
                    loop {
                        ps.ws();
                        let w = ps.word();
                        if w == "global" {
                            break;
                        }
                        if w == "constant" {
                            constant = true;
                            break;
                        }
                        if w == "external" || w == "extern_weak" {
                            external = true;
                        }
                        if w.is_empty() {
                            panic!("global parse: {}", s);
                        }
                        ps.skip_parens();
                    }
                    ps.ws();
                    let ty = ps.ty();
                    ps.ws();
                    q = ps.i;
                    let init = if external { None } else { Some((i + q, e)) };
                    m.gidx.insert(name.clone(), m.globals.len());
                    m.globals.push(GlobalDef { name, ty, init, constant });
                }
            } else if line.starts_with(b"%") {
                let eq = line.iter().position(|c| *c == b'=').unwrap();
                let name = String::from_utf8_lossy(&line[1..eq]).trim().trim_matches('"').to_string();
                let rest = &line[eq + 1..];
                let mut ps = P { s: rest, i: 0, m: &m, regs: None };
                ps.ws();
                if ps.eat("type") {
                    ps.ws();
                    let t = if ps.eat("opaque") { Ty::Other } else { ps.ty() };
                    m.types.insert(name, t);
                }
            }
            i = e + 1;
        }
        for (name, s, e) in aliases {
            let line = &text[s..e];
            // target: last @name in line
            let p = line.iter().rposition(|c| *c == b'@').unwrap();
            let (t, _) = parse_gname(line, p + 1);
            if let Some(f) = m.fidx.get(&t).cloned() {
                m.fidx.insert(name, f);
            } else if let Some(g) = m.gidx.get(&t).cloned() {
                m.gidx.insert(name, g);
            }
        }
        m.text = text;
        m
    }

    pub fn addr_of(&self, name: &str) -> u64 {
        if let Some(g) = self.gidx.get(name) {
            return alloc_base(GLOBAL_ID_BASE + *g as u64);
        }
        if let Some(f) = self.fidx.get(name) {
            return FN_BASE + (*f as u64) * 16;
        }
        if let Some(f) = self.eidx.get(name) {
            // weak externs resolve to null so that std falls back to its portable path
            if matches!(name, "gettid" | "statx" | "__cxa_thread_atexit_impl") {
                return 0;
            }
            return FN_BASE + ((self.fdefs.len() + *f) as u64) * 16;
        }
        panic!("unknown global @{}", name)
    }

    pub fn init_global(&self, g: usize) -> Vec<u8> {
        let d = &self.globals[g];
        let mut buf = vec![0u8; d.ty.size() as usize];
        if let Some((s, e)) = d.init {
            let mut p = P { s: &self.text[s..e], i: 0, m: self, regs: None };
            p.init(&d.ty, &mut buf, 0);
        }
        buf
    }

    pub fn parse_func(&self, fi: usize) -> Func {
        let (name, s, e) = &self.fdefs[fi];
        let body = &self.text[*s..*e];
        // split into logical lines
        let mut lines: Vec<Vec<u8>> = vec![];
        let mut first = true;
        for l in body.split(|c| *c == b'\n') {
            if first {
                lines.push(l.to_vec());
                first = false;
                continue;
            }
            if l.is_empty() || l[0] == b';' || l[0] == b'}' {
                continue;
            }
            if l.starts_with(b"    #dbg") || l.starts_with(b"      #dbg") {
                continue;
            }
            if l.starts_with(b"    ") || l.starts_with(b"  ]") {
                let last = lines.last_mut().unwrap();
                last.push(b' ');
                last.extend_from_slice(l);
                continue;
            }
            lines.push(l.to_vec());
        }
        let regs = std::cell::RefCell::new(Regs { map: HashMap::new(), blocks: HashMap::new(), nblocks: 0 });
        // header
        let hdr = lines[0].clone();
        let at = hdr.iter().position(|c| *c == b'@').unwrap();
        let (_, p0) = parse_gname(&hdr, at + 1);
        let mut params = vec![];
        {
            let mut p = P { s: &hdr, i: p0, m: self, regs: Some(&regs) };
            p.expect("(");
            loop {
                p.ws();
                if p.eat(")") {
                    break;
                }
                if p.eat("...") {
                    continue;
                }
                let _t = p.ty();
                p.skip_attrs();
                if p.peek() == b'%' {
                    let r = p.reg();
                    params.push(r);
                }
                p.ws();
                p.eat(",");
            }
        }
        // first pass: assign block indices in order. Entry block label: implicit.
        let mut blocks: Vec<Block> = vec![];
        let mut pending: Vec<(usize, Vec<usize>)> = vec![]; // block -> line indices
        let mut cur: Vec<usize> = vec![];
        let mut cur_label: Option<String> = None;
        let mut started = false;
        let mut labels: Vec<String> = vec![];
        for li in 1..lines.len() {
            let l = &lines[li];
            if l[0] != b' ' {
                // label line
                let c = label_of(l);
                if started || cur_label.is_some() {
                    labels.push(cur_label.take().unwrap_or_else(|| format!("{}", params.len())));
                    pending.push((pending.len(), std::mem::take(&mut cur)));
                }
                cur_label = Some(c);
                started = true;
            } else {
                started = true;
                cur.push(li);
            }
        }
        labels.push(cur_label.take().unwrap_or_else(|| format!("{}", params.len())));
        pending.push((pending.len(), cur));
        // entry label when unnamed: number = number of params if all params unnamed
        for (i, l) in labels.iter().enumerate() {
            regs.borrow_mut().blocks.insert(l.clone(), i as u32);
        }
        for (_, ls) in pending.iter() {
            let mut b = Block { phis: vec![], ins: vec![] };
            for li in ls {
                let l = &lines[*li];
                let mut p = P { s: l, i: 0, m: self, regs: Some(&regs) };
                p.instr(&mut b);
            }
            blocks.push(b);
        }
        let nregs = regs.borrow().map.len();
        Func { name: name.clone(), params, nregs, blocks }
    }
}

fn label_of(l: &[u8]) -> String {
    if l[0] == b'"' {
        let e = l[1..].iter().position(|c| *c == b'"').unwrap();
        String::from_utf8_lossy(&l[1..1 + e]).to_string()
    } else {
        let e = l.iter().position(|c| *c == b':').unwrap();
        String::from_utf8_lossy(&l[..e]).to_string()
    }
}

fn global_name_in(line: &[u8]) -> String {
    let at = line.iter().position(|c| *c == b'@').unwrap();
    parse_gname(line, at + 1).0
}

/// parse name following '@' or '%' at position p
fn parse_gname(s: &[u8], p: usize) -> (String, usize) {
    if s[p] == b'"' {
        let e = s[p + 1..].iter().position(|c| *c == b'"').unwrap();
        (String::from_utf8_lossy(&s[p + 1..p + 1 + e]).to_string(), p + e + 2)
    } else {
        let mut e = p;
        while e < s.len() && (s[e].is_ascii_alphanumeric() || matches!(s[e], b'_' | b'.' | b'$' | b'-')) {
            e += 1;
        }
        (String::from_utf8_lossy(&s[p..e]).to_string(), e)
    }
}

pub struct Regs {
    map: HashMap<String, u32>,
    blocks: HashMap<String, u32>,
    #[allow(dead_code)]
    nblocks: u32,
}

struct P<'a> {
    s: &'a [u8],
    i: usize,
    m: &'a Module,
    regs: Option<&'a std::cell::RefCell<Regs>>,
}

const BINOPS: &[&str] = &[
    "add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "and", "or", "xor", "shl", "lshr", "ashr", "fadd", "fsub", "fmul", "fdiv", "frem",
];
const CASTS: &[&str] = &[
    "zext", "sext", "trunc", "ptrtoint", "inttoptr", "bitcast", "fpext", "fptrunc", "fptoui", "fptosi", "uitofp", "sitofp", "addrspacecast", "ptrtoaddr",
];
const IPREDS: &[&str] = &["eq", "ne", "ugt", "uge", "ult", "ule", "sgt", "sge", "slt", "sle"];
const FPREDS: &[&str] = &[
    "false", "oeq", "ogt", "oge", "olt", "ole", "one", "ord", "ueq", "ugt", "uge", "ult", "ule", "une", "uno", "true",
];

fn lookup(tab: &[&'static str], w: &str) -> Option<&'static str> {
    tab.iter().find(|x| **x == w).copied()
}

impl<'a> P<'a> {
    fn peek(&self) -> u8 {
        if self.i < self.s.len() {
            self.s[self.i]
        } else {
            0
        }
    }
    fn ws(&mut self) {
        loop {
            while self.i < self.s.len() && (self.s[self.i] == b' ' || self.s[self.i] == b'\t') {
                self.i += 1
            }
            if self.s[self.i.min(self.s.len())..].starts_with(b"/*") {
                while self.i < self.s.len() && !self.s[self.i..].starts_with(b"*/") {
                    self.i += 1
                }
                self.i = (self.i + 2).min(self.s.len());
                continue;
            }
            break;
        }
    }
    fn eat(&mut self, t: &str) -> bool {
        if self.s[self.i..].starts_with(t.as_bytes()) {
            self.i += t.len();
            true
        } else {
            false
        }
    }
    fn expect(&mut self, t: &str) {
        self.ws();
        if !self.eat(t) {
            panic!("expected {:?} at {:?} in {:?}", t, self.i, String::from_utf8_lossy(&self.s[..self.s.len().min(400)]));
        }
    }
    fn peek_word(&self) -> &'a str {
        let mut e = self.i;
        while e < self.s.len() && (self.s[e].is_ascii_alphanumeric() || matches!(self.s[e], b'_' | b'.')) {
            e += 1
        }
        std::str::from_utf8(&self.s[self.i..e]).unwrap()
    }
    fn word(&mut self) -> &'a str {
        let w = self.peek_word();
        self.i += w.len();
        w
    }
    fn skip_parens(&mut self) {
        if self.peek() == b'(' {
            let mut d = 0;
            while self.i < self.s.len() {
                match self.s[self.i] {
                    b'(' => d += 1,
                    b')' => d -= 1,
                    _ => {}
                }
                self.i += 1;
                if d == 0 {
                    break;
                }
            }
        }
    }
    fn num(&mut self) -> u64 {
        self.ws();
        let mut e = self.i;
        while e < self.s.len() && self.s[e].is_ascii_digit() {
            e += 1
        }
        let r = std::str::from_utf8(&self.s[self.i..e]).unwrap().parse().unwrap();
        self.i = e;
        r
    }
    fn ty(&mut self) -> Ty {
        self.ws();
        let c = self.peek();
        let t = match c {
            b'[' => {
                self.i += 1;
                let n = self.num() as usize;
                self.expect("x");
                let t = self.ty();
                self.expect("]");
                Ty::Arr(n, Rc::new(t))
            }
            b'<' => {
                self.i += 1;
                if self.peek() == b'{' {
                    let t = self.struct_ty(true);
                    self.expect(">");
                    t
                } else {
                    let n = self.num() as usize;
                    self.expect("x");
                    let t = self.ty();
                    self.expect(">");
                    Ty::Vec(n, Rc::new(t))
                }
            }
            b'{' => self.struct_ty(false),
            b'%' => {
                let (n, e) = parse_gname(self.s, self.i + 1);
                self.i = e;
                self.m.types.get(&n).cloned().unwrap_or(Ty::Other)
            }
            _ => {
                let w = self.word();
                match w {
                    "void" => Ty::Void,
                    "float" => Ty::F32,
                    "double" => Ty::F64,
                    "ptr" => {
                        if self.s[self.i..].starts_with(b" addrspace(") {
                            self.i += 1;
                            self.word();
                            self.skip_parens();
                        }
                        Ty::Ptr
                    }
                    "metadata" | "label" | "token" | "x86_fp80" | "fp128" | "half" | "bfloat" => Ty::Other,
                    _ => {
                        if w.starts_with('i') {
                            if let Ok(n) = w[1..].parse() {
                                return Ty::Int(n);
                            }
                        }
                        panic!("type {:?} at {} in {:?}", w, self.i, String::from_utf8_lossy(&self.s[..self.s.len().min(300)]))
                    }
                }
            }
        };
        t
    }
    fn struct_ty(&mut self, packed: bool) -> Ty {
        self.expect("{");
        let mut f = vec![];
        loop {
            self.ws();
            if self.eat("}") {
                break;
            }
            f.push(self.ty());
            self.ws();
            self.eat(",");
        }
        Ty::Struct(Rc::new(f), packed)
    }
    fn reg(&mut self) -> u32 {
        let (n, e) = parse_gname(self.s, self.i + 1);
        self.i = e;
        let mut r = self.regs.unwrap().borrow_mut();
        let k = r.map.len() as u32;
        *r.map.entry(n).or_insert(k)
    }
    fn label(&mut self) -> u32 {
        self.ws();
        let (n, e) = parse_gname(self.s, self.i + 1);
        self.i = e;
        match self.regs.unwrap().borrow().blocks.get(&n) {
            Some(b) => *b,
            None => panic!("label {}", n),
        }
    }
    fn value_start(&self) -> bool {
        let c = self.peek();
        if matches!(c, b'%' | b'@' | b'-' | b'+' | b'<' | b'[' | b'{') || c.is_ascii_digit() {
            return true;
        }
        if self.s[self.i..].starts_with(b"c\"") || self.s[self.i..].starts_with(b"f0x") || self.s[self.i..].starts_with(b"u0x") || self.s[self.i..].starts_with(b"s0x")
        {
            return true;
        }
        let w = self.peek_word();
        matches!(
            w,
            "true" | "false" | "null" | "undef" | "poison" | "zeroinitializer" | "splat" | "none" | "getelementptr" | "ptrtoint" | "inttoptr" | "sub" | "add"
                | "trunc" | "bitcast" | "xor" | "asm" | "ptrtoaddr" | "mul"
        )
    }
    /// skip parameter attributes before a value
    fn skip_attrs(&mut self) {
        loop {
            self.ws();
            let c = self.peek();
            if c == 0 || c == b',' || c == b')' || self.value_start() {
                return;
            }
            if c == b'!' || c == b'#' {
                return;
            }
            let w = self.word();
            if w.is_empty() {
                return;
            }
            if w == "align" && self.peek() == b' ' {
                self.num();
            } else {
                self.skip_parens();
            }
        }
    }
    fn intval(v: i128, bits: u32) -> Val {
        if bits > 64 {
            let m = if bits >= 128 { u128::MAX } else { (1u128 << bits) - 1 };
            Val::W(v as u128 & m)
        } else {
            let m = if bits == 64 { u64::MAX } else { (1u64 << bits) - 1 };
            Val::I(v as u64 & m)
        }
    }
    fn value(&mut self, ty: &Ty) -> Op {
        self.ws();
        let c = self.peek();
        if c == b'%' {
            return Op::Reg(self.reg());
        }
        if c == b'@' {
            let (n, e) = parse_gname(self.s, self.i + 1);
            self.i = e;
            return Op::C(Val::I(self.m.addr_of(&n)));
        }
        match ty {
            Ty::Vec(..) | Ty::Arr(..) | Ty::Struct(..) => {
                let w = self.peek_word();
                match w {
                    "zeroinitializer" => {
                        self.word();
                        return Op::C(zero_of(ty));
                    }
                    "undef" | "poison" => {
                        self.word();
                        return Op::C(undef_of(ty));
                    }
                    "splat" => {
                        self.word();
                        self.expect("(");
                        let t = self.ty();
                        self.skip_attrs();
                        let v = self.value(&t);
                        self.expect(")");
                        if let Op::C(v) = v {
                            return Op::C(Val::Agg(Rc::new(vec![v; ty.nfields()])));
                        }
                        panic!("splat reg")
                    }
                    _ => {}
                }
                if self.s[self.i..].starts_with(b"c\"") {
                    let b = self.cstring();
                    return Op::C(Val::Agg(Rc::new(b.into_iter().map(|x| Val::I(x as u64)).collect())));
                }
                // < .. > or { .. } or [ .. ]
                let close: &str = if self.eat("<{") {
                    "}>"
                } else if self.eat("<") {
                    ">"
                } else if self.eat("{") {
                    "}"
                } else if self.eat("[") {
                    "]"
                } else {
                    panic!("agg const {:?}", String::from_utf8_lossy(&self.s[self.i..]))
                };
                let mut v = vec![];
                loop {
                    self.ws();
                    if self.eat(close) {
                        break;
                    }
                    let t = self.ty();
                    self.skip_attrs();
                    match self.value(&t) {
                        Op::C(x) => v.push(x),
                        _ => panic!("reg in const agg"),
                    }
                    self.ws();
                    self.eat(",");
                }
                return Op::C(Val::Agg(Rc::new(v)));
            }
            _ => {}
        }
        let w = self.peek_word();
        match w {
            "true" => {
                self.word();
                return Op::C(Val::I(1));
            }
            "false" | "null" | "none" => {
                self.word();
                return Op::C(Val::I(0));
            }
            "undef" | "poison" => {
                self.word();
                return Op::C(Val::Undef);
            }
            "zeroinitializer" => {
                self.word();
                return Op::C(zero_of(ty));
            }
            "getelementptr" => {
                self.word();
                loop {
                    self.ws();
                    if self.peek() == b'(' {
                        break;
                    }
                    let w = self.word();
                    if w == "inrange" {
                        self.skip_parens();
                    }
                    if w.is_empty() {
                        panic!("gep const");
                    }
                }
                self.expect("(");
                let t = self.ty();
                self.expect(",");
                let pt = self.ty();
                self.skip_attrs();
                let base = match self.value(&pt) {
                    Op::C(Val::I(a)) => a,
                    _ => panic!("gep base"),
                };
                let mut off: i64 = 0;
                let mut cur = t.clone();
                let mut firsti = true;
                loop {
                    self.ws();
                    if self.eat(")") {
                        break;
                    }
                    self.expect(",");
                    let it = self.ty();
                    self.skip_attrs();
                    let iv = match self.value(&it) {
                        Op::C(Val::I(a)) => sext64(a, &it),
                        _ => panic!("gep idx"),
                    };
                    if firsti {
                        off += iv * cur.size() as i64;
                        firsti = false;
                    } else {
                        let (o, nt) = cur.field(if matches!(cur, Ty::Struct(..)) { iv as usize } else { 0 });
                        if matches!(cur, Ty::Struct(..)) {
                            off += o as i64;
                        } else {
                            off += iv * nt.size() as i64;
                        }
                        cur = nt;
                    }
                }
                return Op::C(Val::I((base as i64).wrapping_add(off) as u64));
            }
            "ptrtoint" | "inttoptr" | "bitcast" | "trunc" | "ptrtoaddr" => {
                self.word();
                self.expect("(");
                let t = self.ty();
                self.skip_attrs();
                let v = self.value(&t);
                self.expect("to");
                let t2 = self.ty();
                self.expect(")");
                if let (Op::C(Val::I(a)), Ty::Int(b)) = (&v, &t2) {
                    return Op::C(Self::intval(*a as i128, *b));
                }
                return v;
            }
            "sub" | "add" | "xor" | "mul" => {
                let op = self.word();
                loop {
                    self.ws();
                    if self.peek() == b'(' {
                        break;
                    }
                    self.word();
                }
                self.expect("(");
                let t = self.ty();
                let a = self.value(&t);
                self.expect(",");
                let t = self.ty();
                let b = self.value(&t);
                self.expect(")");
                if let (Op::C(Val::I(a)), Op::C(Val::I(b)), Ty::Int(n)) = (a, b, &t) {
                    let r = match op {
                        "sub" => a.wrapping_sub(b),
                        "add" => a.wrapping_add(b),
                        "mul" => a.wrapping_mul(b),
                        _ => a ^ b,
                    };
                    return Op::C(Self::intval(r as i128, *n));
                }
                panic!("const binop")
            }
            _ => {}
        }
        match ty {
            Ty::F32 | Ty::F64 => {
                let bits: u64;
                if self.eat("f0x") {
                    let w = self.word();
                    let v = u64::from_str_radix(w, 16).unwrap();
                    if w.len() == 16 && *ty == Ty::F32 {
                        return Op::C(Val::F32((f64::from_bits(v) as f32).to_bits()));
                    }
                    if *ty == Ty::F32 {
                        return Op::C(Val::F32(v as u32));
                    }
                    return Op::C(Val::F64(v));
                }
                let st = self.i;
                while self.i < self.s.len() && (self.s[self.i].is_ascii_alphanumeric() || matches!(self.s[self.i], b'+' | b'-' | b'.')) {
                    self.i += 1
                }
                let t = std::str::from_utf8(&self.s[st..self.i]).unwrap();
                let d: f64 = match t {
                    "+inf" | "inf" => f64::INFINITY,
                    "-inf" => f64::NEG_INFINITY,
                    "+qnan" | "+nan" | "nan" => f64::NAN,
                    "-qnan" | "-nan" => -f64::NAN,
                    _ => {
                        if t.starts_with("0x") {
                            f64::from_bits(u64::from_str_radix(&t[2..], 16).unwrap())
                        } else {
                            t.parse().unwrap_or_else(|_| panic!("float const {:?} in {:?}", t, String::from_utf8_lossy(self.s)))
                        }
                    }
                };
                bits = d.to_bits();
                if *ty == Ty::F32 {
                    Op::C(Val::F32((d as f32).to_bits()))
                } else {
                    Op::C(Val::F64(bits))
                }
            }
            Ty::Int(b) => {
                if self.eat("u0x") || self.eat("s0x") {
                    let w = self.word();
                    let v = u128::from_str_radix(w, 16).unwrap();
                    return Op::C(Self::intval(v as i128, *b));
                }
                let neg = self.eat("-");
                let st = self.i;
                while self.i < self.s.len() && self.s[self.i].is_ascii_digit() {
                    self.i += 1
                }
                let t = std::str::from_utf8(&self.s[st..self.i]).unwrap();
                let v: u128 = t
                    .parse()
                    .unwrap_or_else(|_| panic!("int const {:?} at {} in {:?}", t, st, String::from_utf8_lossy(self.s)));
                let v = if neg { (v as i128).wrapping_neg() } else { v as i128 };
                Op::C(Self::intval(v, *b))
            }
            Ty::Other => {
                // metadata operand etc: skip to ',' or ')'
                let mut d = 0;
                while self.i < self.s.len() {
                    match self.s[self.i] {
                        b'(' => d += 1,
                        b')' if d == 0 => break,
                        b')' => d -= 1,
                        b',' if d == 0 => break,
                        _ => {}
                    }
                    self.i += 1;
                }
                Op::C(Val::Undef)
            }
            _ => panic!("value of {:?} at {} in {:?}", ty, self.i, String::from_utf8_lossy(self.s)),
        }
    }
    fn cstring(&mut self) -> Vec<u8> {
        self.expect("c\"");
        let mut v = vec![];
        loop {
            let c = self.s[self.i];
            self.i += 1;
            match c {
                b'"' => break,
                b'\\' => {
                    if self.s[self.i] == b'\\' {
                        v.push(b'\\');
                        self.i += 1;
                    } else {
                        let h = std::str::from_utf8(&self.s[self.i..self.i + 2]).unwrap();
                        v.push(u8::from_str_radix(h, 16).unwrap());
                        self.i += 2;
                    }
                }
                _ => v.push(c),
            }
        }
        v
    }
    fn init(&mut self, ty: &Ty, buf: &mut [u8], off: u64) {
        if let Op::C(v) = self.value(ty) {
            write_const(ty, &v, buf, off);
        }
    }

    fn instr(&mut self, b: &mut Block) {
        self.ws();
        let mut dest = None;
        if self.peek() == b'%' {
            let r = self.reg();
            dest = Some(r);
            self.expect("=");
            self.ws();
        }
        let w = self.word();
        let w = match w {
            "tail" | "musttail" | "notail" => {
                self.ws();
                self.word()
            }
            _ => w,
        };
        if w == "phi" {
            self.skip_flags();
            let t = self.ty();
            let mut inc = vec![];
            loop {
                self.ws();
                if !self.eat("[") {
                    break;
                }
                let v = self.value(&t);
                self.expect(",");
                let l = self.label();
                self.expect("]");
                inc.push((l, v));
                self.ws();
                if !self.eat(",") {
                    break;
                }
                self.ws();
            }
            b.phis.push((dest.unwrap(), inc));
            return;
        }
        let ins = self.instr_body(w);
        b.ins.push((dest, ins));
    }
    fn skip_flags(&mut self) {
        loop {
            self.ws();
            match self.peek_word() {
                "nuw" | "nsw" | "exact" | "disjoint" | "nneg" | "samesign" | "nnan" | "ninf" | "nsz" | "arcp" | "contract" | "afn" | "reassoc" | "fast"
                | "inbounds" | "nusw" | "volatile" | "weak" | "atomic" => {
                    self.word();
                }
                "inrange" => {
                    self.word();
                    self.skip_parens();
                }
                _ => return,
            }
        }
    }
    fn typed(&mut self) -> (Ty, Op) {
        let t = self.ty();
        self.skip_attrs();
        let v = self.value(&t);
        (t, v)
    }
    fn instr_body(&mut self, w: &str) -> Ins {
        if let Some(op) = lookup(BINOPS, w) {
            self.skip_flags();
            let t = self.ty();
            let a = self.value(&t);
            self.expect(",");
            let b = self.value(&t);
            return Ins::Bin(op, t, a, b);
        }
        if let Some(op) = lookup(CASTS, w) {
            self.skip_flags();
            let (t, v) = self.typed();
            self.expect("to");
            let t2 = self.ty();
            return Ins::Cast(op, t, v, t2);
        }
        match w {
            "icmp" => {
                self.skip_flags();
                self.ws();
                let p = lookup(IPREDS, self.word()).unwrap();
                let t = self.ty();
                let a = self.value(&t);
                self.expect(",");
                let b = self.value(&t);
                Ins::Icmp(p, t, a, b)
            }
            "fcmp" => {
                self.skip_flags();
                self.ws();
                let p = lookup(FPREDS, self.word()).unwrap();
                let t = self.ty();
                let a = self.value(&t);
                self.expect(",");
                let b = self.value(&t);
                Ins::Fcmp(p, t, a, b)
            }
            "fneg" => {
                self.skip_flags();
                let (t, v) = self.typed();
                Ins::Fneg(t, v)
            }
            "freeze" => {
                let (_, v) = self.typed();
                Ins::Freeze(v)
            }
            "select" => {
                self.skip_flags();
                let (ct, c) = self.typed();
                self.expect(",");
                let (t, a) = self.typed();
                self.expect(",");
                let (_, bb) = self.typed();
                Ins::Select(ct, c, t, a, bb)
            }
            "getelementptr" => {
                self.skip_flags();
                let t = self.ty();
                self.expect(",");
                let (_, base) = self.typed();
                let mut off: i64 = 0;
                let mut dynv = vec![];
                let mut cur = t;
                let mut first = true;
                loop {
                    self.ws();
                    if self.peek() != b',' {
                        break;
                    }
                    let save = self.i;
                    self.i += 1;
                    self.ws();
                    if self.peek() == b'!' {
                        self.i = save;
                        break;
                    }
                    let (it, iv) = self.typed();
                    let scale;
                    if first {
                        scale = cur.size() as i64;
                        first = false;
                    } else {
                        match &cur {
                            Ty::Struct(..) => {
                                let k = match &iv {
                                    Op::C(Val::I(k)) => *k as usize,
                                    _ => panic!(),
                                };
                                let (o, nt) = cur.field(k);
                                off += o as i64;
                                cur = nt;
                                continue;
                            }
                            _ => {
                                let (_, nt) = cur.field(0);
                                scale = nt.size() as i64;
                                cur = nt;
                            }
                        }
                    }
                    match iv {
                        Op::C(Val::I(k)) => off += sext64(k, &it) * scale,
                        o => dynv.push((it, o, scale)),
                    }
                }
                Ins::Gep(base, off, dynv)
            }
            "load" => {
                self.skip_flags();
                let t = self.ty();
                self.expect(",");
                let (_, p) = self.typed();
                Ins::Load(t, p)
            }
            "store" => {
                self.skip_flags();
                let (t, v) = self.typed();
                self.expect(",");
                let (_, p) = self.typed();
                Ins::Store(t, v, p)
            }
            "alloca" => {
                self.ws();
                if self.peek_word() == "inalloca" {
                    self.word();
                }
                let t = self.ty();
                self.ws();
                let mut cnt = Op::C(Val::I(1));
                if self.eat(",") {
                    self.ws();
                    if self.peek_word() != "align" && self.peek() != b'!' {
                        let (_, c) = self.typed();
                        cnt = c;
                    }
                }
                Ins::Alloca(t, cnt)
            }
            "br" => {
                self.ws();
                if self.eat("label") {
                    let l = self.label();
                    Ins::Br(l)
                } else {
                    let (_, c) = self.typed();
                    self.expect(",");
                    self.expect("label");
                    let a = self.label();
                    self.expect(",");
                    self.expect("label");
                    let b = self.label();
                    Ins::CondBr(c, a, b)
                }
            }
            "switch" => {
                let (t, v) = self.typed();
                self.expect(",");
                self.expect("label");
                let d = self.label();
                self.expect("[");
                let mut cases = vec![];
                loop {
                    self.ws();
                    if self.eat("]") {
                        break;
                    }
                    let (_, k) = self.typed();
                    self.expect(",");
                    self.expect("label");
                    let l = self.label();
                    match k {
                        Op::C(Val::I(k)) => cases.push((k, l)),
                        Op::C(Val::W(k)) => cases.push((k as u64, l)),
                        _ => panic!(),
                    }
                }
                Ins::Switch(t, v, d, cases)
            }
            "ret" => {
                let t = self.ty();
                if t == Ty::Void {
                    Ins::Ret(None)
                } else {
                    self.skip_attrs();
                    let v = self.value(&t);
                    Ins::Ret(Some((t, v)))
                }
            }
            "unreachable" => Ins::Unreachable,
            "call" | "invoke" => {
                // calling convention & ret attrs
                loop {
                    self.ws();
                    let pw = self.peek_word();
                    let is_ty = pw == "void"
                        || pw == "float"
                        || pw == "double"
                        || pw == "ptr"
                        || (pw.starts_with('i') && pw.len() > 1 && pw[1..].bytes().all(|c| c.is_ascii_digit()))
                        || matches!(self.peek(), b'[' | b'<' | b'{' | b'%');
                    if is_ty {
                        break;
                    }
                    let w = self.word();
                    if w == "align" {
                        self.num();
                    } else {
                        self.skip_parens();
                    }
                    if w.is_empty() {
                        panic!("call parse {:?}", String::from_utf8_lossy(self.s));
                    }
                }
                let ret = self.ty();
                self.ws();
                if self.peek() == b'(' {
                    // function type of varargs call
                    self.skip_parens();
                    self.ws();
                }
                let callee = if self.peek() == b'@' {
                    let (n, e) = parse_gname(self.s, self.i + 1);
                    self.i = e;
                    if let Some(f) = self.m.fidx.get(&n) {
                        Callee::Direct(*f)
                    } else {
                        Callee::Named(n.into())
                    }
                } else if self.peek() == b'%' {
                    Callee::Indirect(Op::Reg(self.reg()))
                } else if self.peek_word() == "asm" {
                    return Ins::Call { callee: Callee::Asm, args: vec![], ret, normal: None };
                } else {
                    let v = self.value(&Ty::Ptr);
                    Callee::Indirect(v)
                };
                self.expect("(");
                let mut args = vec![];
                loop {
                    self.ws();
                    if self.eat(")") {
                        break;
                    }
                    let t = self.ty();
                    self.skip_attrs();
                    let v = self.value(&t);
                    args.push((t, v));
                    self.ws();
                    self.eat(",");
                }
                let mut normal = None;
                if w == "invoke" {
                    // find "to label"
                    let rest = &self.s[self.i..];
                    let k = find(rest, b"to label ").unwrap();
                    self.i += k + 9;
                    normal = Some(self.label());
                }
                Ins::Call { callee, args, ret, normal }
            }
            "extractvalue" => {
                let (_, v) = self.typed();
                let idx = self.idx_list();
                Ins::ExtractV(v, idx)
            }
            "insertvalue" => {
                let (t, v) = self.typed();
                self.expect(",");
                let (_, x) = self.typed();
                let idx = self.idx_list();
                Ins::InsertV(t, v, x, idx)
            }
            "extractelement" => {
                let (_, v) = self.typed();
                self.expect(",");
                let (_, i) = self.typed();
                Ins::ExtractE(v, i)
            }
            "insertelement" => {
                let (t, v) = self.typed();
                self.expect(",");
                let (_, x) = self.typed();
                self.expect(",");
                let (_, i) = self.typed();
                Ins::InsertE(t, v, x, i)
            }
            "shufflevector" => {
                let (t, a) = self.typed();
                self.expect(",");
                let (_, bb) = self.typed();
                self.expect(",");
                let (_, m) = self.typed();
                let mask = match m {
                    Op::C(Val::Agg(v)) => v
                        .iter()
                        .map(|x| match x {
                            Val::I(k) => Some(*k as usize),
                            _ => None,
                        })
                        .collect(),
                    _ => panic!("mask"),
                };
                Ins::Shuffle(t, a, bb, mask)
            }
            "fence" => Ins::Fence,
            "atomicrmw" => {
                self.skip_flags();
                self.ws();
                let op: Rc<str> = self.word().into();
                let (_, p) = self.typed();
                self.expect(",");
                let (t, v) = self.typed();
                Ins::Rmw(op, t, p, v)
            }
            "cmpxchg" => {
                self.skip_flags();
                let (_, p) = self.typed();
                self.expect(",");
                let (t, c) = self.typed();
                self.expect(",");
                let (_, n) = self.typed();
                Ins::Cmpxchg(t, p, c, n)
            }
            _ => Ins::Unsupported(w.into()),
        }
    }
    fn idx_list(&mut self) -> Vec<usize> {
        let mut v = vec![];
        loop {
            self.ws();
            if self.peek() != b',' {
                break;
            }
            let save = self.i;
            self.i += 1;
            self.ws();
            if !self.peek().is_ascii_digit() {
                self.i = save;
                break;
            }
            v.push(self.num() as usize);
        }
        v
    }
}

fn find(h: &[u8], n: &[u8]) -> Option<usize> {
    h.windows(n.len()).position(|w| w == n)
}

pub fn sext64(v: u64, t: &Ty) -> i64 {
    match t {
        Ty::Int(b) if *b < 64 => ((v << (64 - b)) as i64) >> (64 - b),
        _ => v as i64,
    }
}

pub fn zero_of(ty: &Ty) -> Val {
    match ty {
        Ty::Int(b) if *b > 64 => Val::W(0),
        Ty::Int(_) | Ty::Ptr => Val::I(0),
        Ty::F32 => Val::F32(0),
        Ty::F64 => Val::F64(0),
        Ty::Vec(n, t) | Ty::Arr(n, t) => Val::Agg(Rc::new(vec![zero_of(t); *n])),
        Ty::Struct(f, _) => Val::Agg(Rc::new(f.iter().map(zero_of).collect())),
        _ => Val::Undef,
    }
}
pub fn undef_of(ty: &Ty) -> Val {
    match ty {
        Ty::Vec(n, t) | Ty::Arr(n, t) => Val::Agg(Rc::new(vec![undef_of(t); *n])),
        Ty::Struct(f, _) => Val::Agg(Rc::new(f.iter().map(undef_of).collect())),
        _ => Val::Undef,
    }
}

pub fn write_const(ty: &Ty, v: &Val, buf: &mut [u8], off: u64) {
    let o = off as usize;
    match (ty, v) {
        (_, Val::Undef) => {}
        (Ty::Vec(..), Val::Agg(a)) | (Ty::Arr(..), Val::Agg(a)) | (Ty::Struct(..), Val::Agg(a)) => {
            for (i, x) in a.iter().enumerate() {
                let (fo, ft) = ty.field(i);
                write_const(&ft, x, buf, off + fo);
            }
        }
        (_, Val::I(x)) => {
            let n = ty.size() as usize;
            buf[o..o + n].copy_from_slice(&x.to_le_bytes()[..n]);
        }
        (_, Val::W(x)) => {
            let n = ty.size() as usize;
            buf[o..o + n].copy_from_slice(&x.to_le_bytes()[..n]);
        }
        (_, Val::F32(x)) => buf[o..o + 4].copy_from_slice(&x.to_le_bytes()),
        (_, Val::F64(x)) => buf[o..o + 8].copy_from_slice(&x.to_le_bytes()),
        _ => panic!("write_const {:?} {:?}", ty, v),
    }
}
