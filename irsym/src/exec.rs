use crate::icmp_const;
use crate::ir::*;
use crate::term::*;
use std::collections::{BTreeMap, HashMap};
use std::rc::Rc;

#[derive(Clone)]
pub struct Alloc {
    pub bytes: Vec<u8>,
    pub sym: BTreeMap<u32, (u32, TermId)>, // offset -> (size, term)
    pub live: bool,
    pub constant: bool,
}

#[derive(Clone)]
pub struct Frame {
    pub f: Rc<Func>,
    pub regs: Vec<Val>,
    pub block: u32,
    pub ip: usize,
    pub dest: Option<u32>,
    pub normal: Option<u32>,
    pub allocas: Vec<u64>,
}

#[derive(Clone)]
pub struct State {
    pub mem: Vec<Option<Rc<Alloc>>>, // index = alloc id; None = not yet initialised global / null
    pub frames: Vec<Frame>,
    pub known: Rc<HashMap<TermId, bool>>,
    pub vals: Rc<HashMap<TermId, u64>>,
    pub out: u64,
    pub pending: Option<TermId>,
    pub steps: u64,
}

pub enum Slot {
    Bits(u64),
    Term(TermId),
}

pub enum Event {
    Branch(TermId),
    Conc(TermId),
    Done(&'static str, String),
}

enum Stop {
    Branch(TermId),
    Conc(TermId),
    Done(&'static str, String),
}

type R<T> = Result<T, Stop>;

fn unsup<T>(s: String) -> R<T> {
    Err(Stop::Done("unsupported", s))
}

pub struct Exec {
    pub m: Module,
    pub terms: Terms,
    pub funcs: HashMap<usize, Rc<Func>>,
    pub states: HashMap<u64, State>,
    next_sid: u64,
    base: Option<State>,
    pub icount: u64,
    pub step_limit: u64,
}

fn mask(w: u32) -> u64 {
    if w >= 64 {
        u64::MAX
    } else {
        (1u64 << w) - 1
    }
}

fn fsort(t: &Ty) -> Option<Sort> {
    match t {
        Ty::F32 => Some(Sort::F32),
        Ty::F64 => Some(Sort::F64),
        Ty::Int(n) => Some(Sort::I(*n)),
        Ty::Ptr => Some(Sort::I(64)),
        _ => None,
    }
}

impl Exec {
    pub fn new(m: Module) -> Exec {
        Exec {
            m,
            terms: Terms::default(),
            funcs: HashMap::new(),
            states: HashMap::new(),
            next_sid: 1,
            base: None,
            icount: 0,
            step_limit: 3_000_000_000,
        }
    }
    pub fn executed(&self) -> Vec<String> {
        self.funcs.values().map(|f| f.name.clone()).collect()
    }
    fn func(&mut self, i: usize) -> Rc<Func> {
        if let Some(f) = self.funcs.get(&i) {
            return f.clone();
        }
        let f = Rc::new(self.m.parse_func(i));
        self.funcs.insert(i, f.clone());
        f
    }
    fn fresh_state(&self) -> State {
        if let Some(b) = &self.base {
            return b.clone();
        }
        let mut mem = vec![None; 1 + self.m.globals.len()];
        mem[0] = None;
        State {
            mem,
            frames: vec![],
            known: Rc::new(HashMap::new()),
            vals: Rc::new(HashMap::new()),
            out: 0,
            pending: None,
            steps: 0,
        }
    }
    pub fn set_base(&mut self, mut s: State) {
        s.frames.clear();
        s.steps = 0;
        self.base = Some(s);
    }
    fn alloc(&self, st: &mut State, size: u64, fill: u8) -> u64 {
        let id = st.mem.len() as u64;
        st.mem.push(Some(Rc::new(Alloc { bytes: vec![fill; size as usize], sym: BTreeMap::new(), live: true, constant: false })));
        alloc_base(id)
    }
    pub fn start(&mut self, name: &str, slots: &[(Sort, Slot)], nout: u64) -> Result<State, String> {
        let fi = match self.m.fidx.get(name) {
            Some(f) => *f,
            None => return Err(format!("no function {}", name)),
        };
        let f = self.func(fi);
        let mut st = self.fresh_state();
        let ssize = |s: &Sort| match s {
            Sort::F32 => 4,
            Sort::F64 => 8,
            Sort::I(n) => (*n as u64 + 7) / 8,
        };
        let total: u64 = slots.iter().map(|(s, _)| ssize(s)).sum();
        let inp = self.alloc(&mut st, total, 0);
        {
            let a = Rc::get_mut(st.mem[(inp >> 32) as usize].as_mut().unwrap()).unwrap();
            let mut o = 0u64;
            for (s, v) in slots {
                let n = ssize(s);
                match v {
                    Slot::Bits(b) => a.bytes[o as usize..(o + n) as usize].copy_from_slice(&b.to_le_bytes()[..n as usize]),
                    Slot::Term(t) => {
                        a.sym.insert(o as u32, (n as u32, *t));
                    }
                }
                o += n;
            }
        }
        let out = self.alloc(&mut st, nout, 0);
        st.out = out;
        let mut regs = vec![Val::Undef; f.nregs];
        let args = [inp, out];
        for (k, p) in f.params.iter().enumerate() {
            regs[*p as usize] = Val::I(args[k]);
        }
        st.frames.push(Frame { f, regs, block: 0, ip: 0, dest: None, normal: None, allocas: vec![] });
        Ok(st)
    }
    pub fn advance(&mut self, mut st: State) -> String {
        let ev = self.run(&mut st);
        let sid = self.next_sid;
        self.next_sid += 1;
        let r = match ev {
            Event::Branch(t) => {
                st.pending = Some(t);
                format!("branch {} {}", sid, t)
            }
            Event::Conc(t) => {
                st.pending = Some(t);
                format!("conc {} {}", sid, t)
            }
            Event::Done(s, d) => format!("done {} {} {}", sid, s, d.replace('\n', " ")),
        };
        self.states.insert(sid, st);
        r
    }
    pub fn fork(&mut self, sid: u64, d: bool) -> String {
        let mut st = match self.states.get(&sid) {
            Some(s) => s.clone(),
            None => return "err no state".into(),
        };
        let t = st.pending.take().unwrap();
        self.learn(&mut st, t, d);
        self.advance(st)
    }
    fn learn(&mut self, st: &mut State, t: TermId, d: bool) {
        let k = Rc::make_mut(&mut st.known);
        k.insert(t, d);
        let n = self.terms.nodes[t as usize].clone();
        match (n.op, d) {
            ("not", _) => self.learn(st, n.args[0], !d),
            ("and", true) | ("or", false) => {
                for a in n.args {
                    self.learn(st, a, d)
                }
            }
            _ => {}
        }
    }
    pub fn conc(&mut self, sid: u64, v: u64) -> String {
        let mut st = match self.states.get(&sid) {
            Some(s) => s.clone(),
            None => return "err no state".into(),
        };
        let t = st.pending.take().unwrap();
        Rc::make_mut(&mut st.vals).insert(t, v);
        self.advance(st)
    }
    pub fn read_out(&mut self, sid: u64, so: Sort, off: u64, n: u64) -> String {
        let mut st = self.states.remove(&sid).unwrap();
        let ty = match so {
            Sort::F32 => Ty::F32,
            Sort::F64 => Ty::F64,
            Sort::I(k) => Ty::Int(k),
        };
        let mut r = vec![];
        for i in 0..n {
            let a = st.out + off + i * ty.size();
            match self.load(&mut st, a, &ty) {
                Ok(Val::T(t)) => r.push(format!("t{}", t)),
                Ok(Val::I(b)) => r.push(format!("{:x}", b)),
                Ok(Val::F32(b)) => r.push(format!("{:x}", b)),
                Ok(Val::F64(b)) => r.push(format!("{:x}", b)),
                Ok(_) => r.push("undef".into()),
                Err(_) => r.push("fault".into()),
            }
        }
        self.states.insert(sid, st);
        r.join(" ")
    }

    // ---------------------------------------------------------------- memory
    fn ensure(&self, st: &mut State, id: usize) -> bool {
        if id == 0 || id >= st.mem.len() {
            return false;
        }
        if st.mem[id].is_none() {
            let g = id - GLOBAL_ID_BASE as usize;
            let bytes = self.m.init_global(g);
            st.mem[id] = Some(Rc::new(Alloc { bytes, sym: BTreeMap::new(), live: true, constant: self.m.globals[g].constant }));
        }
        true
    }
    fn check(&self, st: &mut State, addr: u64, n: u64, what: &str) -> R<(usize, usize)> {
        let id = (addr >> 32) as usize;
        let off = (addr & 0xffff_ffff) as usize;
        if addr >= FN_BASE || !self.ensure(st, id) {
            return Err(Stop::Done("memfault", format!("{} of {} bytes at invalid address {:#x}", what, n, addr)));
        }
        let a = st.mem[id].as_ref().unwrap();
        if !a.live {
            return Err(Stop::Done("memfault", format!("{} of {} bytes in freed allocation {:#x}", what, n, addr)));
        }
        if off as u64 + n > a.bytes.len() as u64 {
            return Err(Stop::Done(
                "memfault",
                format!("{} of {} bytes at offset {} of an allocation of {} bytes", what, n, off, a.bytes.len()),
            ));
        }
        Ok((id, off))
    }
    fn load(&mut self, st: &mut State, addr: u64, ty: &Ty) -> R<Val> {
        match ty {
            Ty::Vec(n, t) if **t == Ty::Int(1) => {
                let _ = n;
                return unsup("load of <n x i1>".into());
            }
            Ty::Vec(n, t) | Ty::Arr(n, t) => {
                let sz = t.size();
                let mut v = Vec::with_capacity(*n);
                for i in 0..*n {
                    v.push(self.load(st, addr + i as u64 * sz, t)?);
                }
                return Ok(Val::Agg(Rc::new(v)));
            }
            Ty::Struct(f, _) => {
                let mut v = Vec::with_capacity(f.len());
                for i in 0..f.len() {
                    let (o, t) = ty.field(i);
                    v.push(self.load(st, addr + o, &t)?);
                }
                return Ok(Val::Agg(Rc::new(v)));
            }
            _ => {}
        }
        let n = match ty {
            Ty::Int(b) => ((*b as u64) + 7) / 8,
            _ => ty.size(),
        };
        let (id, off) = self.check(st, addr, n, "read")?;
        let a = st.mem[id].as_ref().unwrap().clone();
        if !a.sym.is_empty() {
            let lo = off as u32;
            let hi = (off as u64 + n) as u32;
            // any symbolic entry overlapping [lo,hi)?
            let start = lo.saturating_sub(15);
            let ov: Vec<(u32, u32, TermId)> = a
                .sym
                .range(start..hi)
                .filter(|(o, (s, _))| **o + *s > lo)
                .map(|(o, (s, t))| (*o, *s, *t))
                .collect();
            if !ov.is_empty() {
                if ov.len() == 1 && ov[0].0 == lo && ov[0].1 as u64 == n {
                    return self.retype(ov[0].2, ty);
                }
                // assemble from pieces
                let mut parts = vec![];
                let mut p = lo;
                for (o, s, t) in ov {
                    if p < o {
                        let k = (o - p) as usize;
                        let mut bits = 0u128;
                        for j in 0..k {
                            bits |= (a.bytes[p as usize + j] as u128) << (8 * j);
                        }
                        parts.push(self.terms.con(Sort::I(8 * k as u32), bits));
                        p = o;
                    }
                    let end = (o + s).min(hi);
                    let it = self.as_int(t);
                    let piece = self.terms.extract(it, 8 * (p - o), 8 * (end - p));
                    parts.push(piece);
                    p = end;
                }
                if p < hi {
                    let k = (hi - p) as usize;
                    let mut bits = 0u128;
                    for j in 0..k {
                        bits |= (a.bytes[p as usize + j] as u128) << (8 * j);
                    }
                    parts.push(self.terms.con(Sort::I(8 * k as u32), bits));
                }
                let t = self.terms.concat(parts);
                return self.retype(t, ty);
            }
        }
        let b = &a.bytes[off..off + n as usize];
        let mut x = [0u8; 16];
        x[..n as usize].copy_from_slice(b);
        let v = u128::from_le_bytes(x);
        Ok(match ty {
            Ty::F32 => Val::F32(v as u32),
            Ty::F64 => Val::F64(v as u64),
            Ty::Ptr => Val::I(v as u64),
            Ty::Int(w) if *w > 64 => Val::W(v),
            Ty::Int(w) => Val::I(v as u64 & mask(*w)),
            _ => return unsup(format!("load {:?}", ty)),
        })
    }
    fn as_int(&mut self, t: TermId) -> TermId {
        match self.terms.sort(t) {
            Sort::F32 => self.terms.cast("bitcast", Sort::I(32), t),
            Sort::F64 => self.terms.cast("bitcast", Sort::I(64), t),
            Sort::I(1) => self.terms.cast("zext", Sort::I(8), t),
            Sort::I(n) if n % 8 != 0 => self.terms.cast("zext", Sort::I((n + 7) / 8 * 8), t),
            _ => t,
        }
    }
    fn retype(&mut self, t: TermId, ty: &Ty) -> R<Val> {
        let want = fsort(ty).unwrap();
        let have = self.terms.sort(t);
        if want == have {
            return self.norm(t);
        }
        if let Some(c) = self.terms.is_const(t) {
            return Ok(self.constval(ty, c));
        }
        let r = match (have, want) {
            (Sort::I(a), Sort::I(b)) if b < a => self.terms.extract(t, 0, b),
            (Sort::I(a), Sort::I(b)) if b > a => self.terms.cast("zext", Sort::I(b), t),
            _ => self.terms.cast("bitcast", want, t),
        };
        self.norm(r)
    }
    fn constval(&self, ty: &Ty, c: u128) -> Val {
        match ty {
            Ty::F32 => Val::F32(c as u32),
            Ty::F64 => Val::F64(c as u64),
            Ty::Int(w) if *w > 64 => Val::W(c),
            Ty::Int(w) => Val::I(c as u64 & mask(*w)),
            _ => Val::I(c as u64),
        }
    }
    /// collapse constant terms to concrete values
    fn norm(&mut self, t: TermId) -> R<Val> {
        if let Some(c) = self.terms.is_const(t) {
            return Ok(match self.terms.sort(t) {
                Sort::F32 => Val::F32(c as u32),
                Sort::F64 => Val::F64(c as u64),
                Sort::I(w) if w > 64 => Val::W(c),
                Sort::I(_) => Val::I(c as u64),
            });
        }
        Ok(Val::T(t))
    }
    fn clear_sym(&mut self, st: &mut State, id: usize, lo: u32, hi: u32) {
        let a = st.mem[id].as_ref().unwrap();
        if a.sym.is_empty() {
            return;
        }
        let start = lo.saturating_sub(15);
        let ov: Vec<(u32, u32, TermId)> = a
            .sym
            .range(start..hi)
            .filter(|(o, (s, _))| **o + *s > lo)
            .map(|(o, (s, t))| (*o, *s, *t))
            .collect();
        for (o, s, t) in ov {
            let head = if o < lo {
                let it = self.as_int(t);
                Some(self.terms.extract(it, 0, 8 * (lo - o)))
            } else {
                None
            };
            let tail = if o + s > hi {
                let it = self.as_int(t);
                Some(self.terms.extract(it, 8 * (hi - o), 8 * (o + s - hi)))
            } else {
                None
            };
            let a = Rc::make_mut(st.mem[id].as_mut().unwrap());
            a.sym.remove(&o);
            if let Some(h) = head {
                a.sym.insert(o, (lo - o, h));
            }
            if let Some(tl) = tail {
                a.sym.insert(hi, (o + s - hi, tl));
            }
        }
    }
    fn store(&mut self, st: &mut State, addr: u64, ty: &Ty, v: &Val) -> R<()> {
        match (ty, v) {
            (Ty::Vec(_, t), _) if **t == Ty::Int(1) => return unsup("store <n x i1>".into()),
            (Ty::Vec(n, t), Val::Agg(a)) | (Ty::Arr(n, t), Val::Agg(a)) => {
                let sz = t.size();
                for i in 0..*n {
                    self.store(st, addr + i as u64 * sz, t, &a[i])?;
                }
                return Ok(());
            }
            (Ty::Struct(f, _), Val::Agg(a)) => {
                for i in 0..f.len() {
                    let (o, t) = ty.field(i);
                    self.store(st, addr + o, &t, &a[i])?;
                }
                return Ok(());
            }
            _ => {}
        }
        let n = match ty {
            Ty::Int(b) => ((*b as u64) + 7) / 8,
            _ => ty.size(),
        };
        let (id, off) = self.check(st, addr, n, "write")?;
        if st.mem[id].as_ref().unwrap().constant {
            return Err(Stop::Done("memfault", "write to constant".into()));
        }
        self.clear_sym(st, id, off as u32, (off as u64 + n) as u32);
        let t = match v {
            Val::T(t) => {
                let mut t = *t;
                if let Sort::I(w) = self.terms.sort(t) {
                    if w % 8 != 0 {
                        t = self.as_int(t);
                    }
                }
                Some(t)
            }
            _ => None,
        };
        let a = Rc::make_mut(st.mem[id].as_mut().unwrap());
        match v {
            Val::T(_) => {
                a.sym.insert(off as u32, (n as u32, t.unwrap()));
            }
            Val::I(x) => a.bytes[off..off + n as usize].copy_from_slice(&x.to_le_bytes()[..n as usize]),
            Val::W(x) => a.bytes[off..off + n as usize].copy_from_slice(&x.to_le_bytes()[..n as usize]),
            Val::F32(x) => a.bytes[off..off + 4].copy_from_slice(&x.to_le_bytes()),
            Val::F64(x) => a.bytes[off..off + 8].copy_from_slice(&x.to_le_bytes()),
            Val::Undef => {
                for b in &mut a.bytes[off..off + n as usize] {
                    *b = 0xA5
                }
            }
            Val::Agg(_) => return unsup(format!("store {:?}", ty)),
        }
        Ok(())
    }
    fn copy(&mut self, st: &mut State, dst: u64, src: u64, n: u64) -> R<()> {
        if n == 0 {
            return Ok(());
        }
        let (si, so) = self.check(st, src, n, "read")?;
        let (di, d_o) = self.check(st, dst, n, "write")?;
        let a = st.mem[si].as_ref().unwrap().clone();
        let bytes = a.bytes[so..so + n as usize].to_vec();
        let lo = so as u32;
        let hi = (so as u64 + n) as u32;
        let mut entries: Vec<(u32, u32, TermId)> = vec![];
        if !a.sym.is_empty() {
            let ov: Vec<(u32, u32, TermId)> = a
                .sym
                .range(lo.saturating_sub(15)..hi)
                .filter(|(o, (s, _))| **o + *s > lo)
                .map(|(o, (s, t))| (*o, *s, *t))
                .collect();
            for (o, s, t) in ov {
                if o >= lo && o + s <= hi {
                    entries.push((o - lo, s, t));
                } else {
                    let b = o.max(lo);
                    let e = (o + s).min(hi);
                    let it = self.as_int(t);
                    let x = self.terms.extract(it, 8 * (b - o), 8 * (e - b));
                    entries.push((b - lo, e - b, x));
                }
            }
        }
        drop(a);
        self.clear_sym(st, di, d_o as u32, (d_o as u64 + n) as u32);
        let d = Rc::make_mut(st.mem[di].as_mut().unwrap());
        d.bytes[d_o..d_o + n as usize].copy_from_slice(&bytes);
        for (o, s, t) in entries {
            d.sym.insert(d_o as u32 + o, (s, t));
        }
        Ok(())
    }

    // ---------------------------------------------------------------- values
    fn get(&self, fr: &Frame, o: &Op) -> Val {
        match o {
            Op::Reg(r) => fr.regs[*r as usize].clone(),
            Op::C(v) => v.clone(),
        }
    }
    fn to_term(&mut self, v: &Val, ty: &Ty) -> R<TermId> {
        let s = match fsort(ty) {
            Some(s) => s,
            None => return unsup(format!("term of {:?}", ty)),
        };
        Ok(match v {
            Val::T(t) => *t,
            Val::I(x) => self.terms.con(s, *x as u128),
            Val::W(x) => self.terms.con(s, *x),
            Val::F32(x) => self.terms.con(s, *x as u128),
            Val::F64(x) => self.terms.con(s, *x as u128),
            Val::Undef => return unsup("undef in symbolic operation".into()),
            Val::Agg(_) => return unsup("aggregate in symbolic operation".into()),
        })
    }
    fn need_bool(&mut self, st: &State, v: &Val) -> R<bool> {
        match v {
            Val::I(x) => Ok(*x & 1 == 1),
            Val::T(t) => self.known_bool(st, *t),
            _ => unsup("branch on undef".into()),
        }
    }
    fn known_bool(&mut self, st: &State, t: TermId) -> R<bool> {
        match self.lookup_bool(st, t) {
            Some(b) => Ok(b),
            None => Err(Stop::Branch(t)),
        }
    }
    fn lookup_bool(&mut self, st: &State, t: TermId) -> Option<bool> {
        if let Some(c) = self.terms.is_const(t) {
            return Some(c == 1);
        }
        if let Some(b) = st.known.get(&t) {
            return Some(*b);
        }
        let n = self.terms.nodes[t as usize].clone();
        match n.op {
            "not" => self.lookup_bool(st, n.args[0]).map(|b| !b),
            "and" => {
                let a = self.lookup_bool(st, n.args[0]);
                let b = self.lookup_bool(st, n.args[1]);
                match (a, b) {
                    (Some(false), _) | (_, Some(false)) => Some(false),
                    (Some(true), Some(true)) => Some(true),
                    _ => None,
                }
            }
            "or" => {
                let a = self.lookup_bool(st, n.args[0]);
                let b = self.lookup_bool(st, n.args[1]);
                match (a, b) {
                    (Some(true), _) | (_, Some(true)) => Some(true),
                    (Some(false), Some(false)) => Some(false),
                    _ => None,
                }
            }
            "eq" => {
                // both sides concretised?
                let a = self.lookup_int(st, n.args[0])?;
                let b = self.lookup_int(st, n.args[1])?;
                Some(a == b)
            }
            _ => None,
        }
    }
    fn lookup_int(&mut self, st: &State, t: TermId) -> Option<u64> {
        if let Some(c) = self.terms.is_const(t) {
            return Some(c as u64);
        }
        if let Some(v) = st.vals.get(&t) {
            return Some(*v);
        }
        let n = self.terms.nodes[t as usize].clone();
        let w = match n.sort {
            Sort::I(w) if w <= 64 => w,
            _ => return None,
        };
        match n.op {
            "add" | "sub" | "mul" | "shl" | "lshr" | "and" | "or" => {
                let a = self.lookup_int(st, n.args[0])?;
                let b = self.lookup_int(st, n.args[1])?;
                let r = match n.op {
                    "add" => a.wrapping_add(b),
                    "sub" => a.wrapping_sub(b),
                    "mul" => a.wrapping_mul(b),
                    "shl" if b < 64 => a << b,
                    "lshr" if b < 64 => a >> b,
                    "and" => a & b,
                    "or" => a | b,
                    _ => 0,
                };
                Some(r & mask(w))
            }
            "zext" => self.lookup_int(st, n.args[0]),
            "extract" => {
                let a = self.lookup_int(st, n.args[0])?;
                Some((a >> n.imm) & mask(w))
            }
            "ite" => {
                let c = self.lookup_bool(st, n.args[0])?;
                self.lookup_int(st, if c { n.args[1] } else { n.args[2] })
            }
            _ if n.sort == Sort::I(1) => self.lookup_bool(st, t).map(|b| b as u64),
            _ => None,
        }
    }
    fn need_int(&mut self, st: &State, v: &Val) -> R<u64> {
        match v {
            Val::I(x) => Ok(*x),
            Val::W(x) => Ok(*x as u64),
            Val::T(t) => match self.lookup_int(st, *t) {
                Some(x) => Ok(x),
                None => Err(Stop::Conc(*t)),
            },
            _ => unsup("undef integer needed".into()),
        }
    }

    fn binop(&mut self, op: &'static str, ty: &Ty, a: &Val, b: &Val) -> R<Val> {
        if let Ty::Vec(n, t) = ty {
            if let (Val::Agg(x), Val::Agg(y)) = (a, b) {
                let mut v = Vec::with_capacity(*n);
                for i in 0..*n {
                    v.push(self.binop(op, t, &x[i], &y[i])?);
                }
                return Ok(Val::Agg(Rc::new(v)));
            }
            return Ok(Val::Undef);
        }
        match (a, b) {
            (Val::Undef, _) | (_, Val::Undef) => return Ok(Val::Undef),
            (Val::F64(x), Val::F64(y)) => {
                let (x, y) = (f64::from_bits(*x), f64::from_bits(*y));
                let r = match op {
                    "fadd" => x + y,
                    "fsub" => x - y,
                    "fmul" => x * y,
                    "fdiv" => x / y,
                    "frem" => x % y,
                    _ => return unsup(format!("{} f64", op)),
                };
                return Ok(Val::F64(r.to_bits()));
            }
            (Val::F32(x), Val::F32(y)) => {
                let (x, y) = (f32::from_bits(*x), f32::from_bits(*y));
                let r = match op {
                    "fadd" => x + y,
                    "fsub" => x - y,
                    "fmul" => x * y,
                    "fdiv" => x / y,
                    "frem" => x % y,
                    _ => return unsup(format!("{} f32", op)),
                };
                return Ok(Val::F32(r.to_bits()));
            }
            (Val::I(x), Val::I(y)) => {
                let w = match ty {
                    Ty::Int(w) => *w,
                    _ => 64,
                };
                let sx = |v: u64| ((v << (64 - w)) as i64) >> (64 - w);
                let (x, y) = (*x, *y);
                let r = match op {
                    "add" => x.wrapping_add(y),
                    "sub" => x.wrapping_sub(y),
                    "mul" => x.wrapping_mul(y),
                    "udiv" | "urem" | "sdiv" | "srem" if y == 0 => return Err(Stop::Done("panic", "division by zero (UB)".into())),
                    "udiv" => x / y,
                    "urem" => x % y,
                    "sdiv" => sx(x).wrapping_div(sx(y)) as u64,
                    "srem" => sx(x).wrapping_rem(sx(y)) as u64,
                    "and" => x & y,
                    "or" => x | y,
                    "xor" => x ^ y,
                    "shl" => {
                        if y >= w as u64 {
                            return Ok(Val::Undef);
                        } else {
                            x << y
                        }
                    }
                    "lshr" => {
                        if y >= w as u64 {
                            return Ok(Val::Undef);
                        } else {
                            x >> y
                        }
                    }
                    "ashr" => {
                        if y >= w as u64 {
                            return Ok(Val::Undef);
                        } else {
                            (sx(x) >> y) as u64
                        }
                    }
                    _ => return unsup(format!("int {}", op)),
                };
                return Ok(Val::I(r & mask(w)));
            }
            (Val::W(x), Val::W(y)) => {
                let w = match ty {
                    Ty::Int(w) => *w,
                    _ => 128,
                };
                let m = if w >= 128 { u128::MAX } else { (1u128 << w) - 1 };
                let (x, y) = (*x, *y);
                let r = match op {
                    "add" => x.wrapping_add(y),
                    "sub" => x.wrapping_sub(y),
                    "mul" => x.wrapping_mul(y),
                    "and" => x & y,
                    "or" => x | y,
                    "xor" => x ^ y,
                    "shl" => x << (y as u32),
                    "lshr" => x >> (y as u32),
                    "udiv" if y != 0 => x / y,
                    "urem" if y != 0 => x % y,
                    "ashr" if w == 128 => ((x as i128) >> (y as u32)) as u128,
                    _ => return unsup(format!("wide {}", op)),
                };
                return Ok(Val::W(r & m));
            }
            _ => {}
        }
        let x = self.to_term(a, ty)?;
        let y = self.to_term(b, ty)?;
        let t = self.terms.bin(op, fsort(ty).unwrap(), x, y);
        self.norm(t)
    }
    fn fcmp(&mut self, pred: &'static str, ty: &Ty, a: &Val, b: &Val) -> R<Val> {
        if let Ty::Vec(n, t) = ty {
            if let (Val::Agg(x), Val::Agg(y)) = (a, b) {
                let mut v = Vec::with_capacity(*n);
                for i in 0..*n {
                    v.push(self.fcmp(pred, t, &x[i], &y[i])?);
                }
                return Ok(Val::Agg(Rc::new(v)));
            }
        }
        let f = |v: &Val| match v {
            Val::F64(x) => Some(f64::from_bits(*x)),
            Val::F32(x) => Some(f32::from_bits(*x) as f64),
            _ => None,
        };
        if let (Some(x), Some(y)) = (f(a), f(b)) {
            let un = x.is_nan() || y.is_nan();
            let r = match pred {
                "false" => false,
                "true" => true,
                "ord" => !un,
                "uno" => un,
                "oeq" => x == y,
                "ogt" => x > y,
                "oge" => x >= y,
                "olt" => x < y,
                "ole" => x <= y,
                "one" => !un && x != y,
                "ueq" => un || x == y,
                "ugt" => un || x > y,
                "uge" => un || x >= y,
                "ult" => un || x < y,
                "ule" => un || x <= y,
                "une" => un || x != y,
                _ => return unsup(pred.into()),
            };
            return Ok(Val::I(r as u64));
        }
        if matches!(a, Val::Undef) || matches!(b, Val::Undef) {
            return Ok(Val::Undef);
        }
        let x = self.to_term(a, ty)?;
        let y = self.to_term(b, ty)?;
        // canonical predicates: olt, ole, oeq, ord and their negations
        let b1 = Sort::I(1);
        let (p, l, r, neg): (&'static str, TermId, TermId, bool) = match pred {
            "olt" => ("flt", x, y, false),
            "ole" => ("fle", x, y, false),
            "ogt" => ("flt", y, x, false),
            "oge" => ("fle", y, x, false),
            "oeq" => ("feq", x.min(y), x.max(y), false),
            "une" => ("feq", x.min(y), x.max(y), true),
            "uge" => ("flt", x, y, true),
            "ugt" => ("fle", x, y, true),
            "ule" => ("flt", y, x, true),
            "ult" => ("fle", y, x, true),
            "ord" => ("ford", x.min(y), x.max(y), false),
            "uno" => ("ford", x.min(y), x.max(y), true),
            "one" => {
                let o = self.terms.mk("ford", b1, vec![x.min(y), x.max(y)], 0);
                let e = self.terms.mk("feq", b1, vec![x.min(y), x.max(y)], 0);
                let ne = self.terms.not(e);
                let t = self.terms.bin("and", b1, o, ne);
                return self.norm(t);
            }
            "ueq" => {
                let o = self.terms.mk("ford", b1, vec![x.min(y), x.max(y)], 0);
                let e = self.terms.mk("feq", b1, vec![x.min(y), x.max(y)], 0);
                let no = self.terms.not(o);
                let t = self.terms.bin("or", b1, no, e);
                return self.norm(t);
            }
            "true" => return Ok(Val::I(1)),
            "false" => return Ok(Val::I(0)),
            _ => return unsup(pred.into()),
        };
        let t = self.terms.mk(p, b1, vec![l, r], 0);
        let t = if neg { self.terms.not(t) } else { t };
        self.norm(t)
    }
    fn fpclass(&mut self, ty: &Ty, v: &Val, mask: u64) -> R<Val> {
        if let (Ty::Vec(n, t), Val::Agg(x)) = (ty, v) {
            let mut r = Vec::with_capacity(*n);
            for i in 0..*n {
                r.push(self.fpclass(t, &x[i], mask)?);
            }
            return Ok(Val::Agg(Rc::new(r)));
        }
        let b1 = Ty::Int(1);
        let k = |x: f64| if matches!(ty, Ty::F32) { Val::F32((x as f32).to_bits()) } else { Val::F64(x.to_bits()) };
        let (inf, minn) = (f64::INFINITY, if matches!(ty, Ty::F32) { f32::MIN_POSITIVE as f64 } else { f64::MIN_POSITIVE });
        let mut parts: Vec<Val> = vec![];
        match mask & 3 {
            0 => {}
            3 => parts.push(self.fcmp("uno", ty, v, v)?),
            _ => return unsup("is.fpclass with one kind of NaN".into()),
        }
        if mask & 0x4 != 0 {
            parts.push(self.fcmp("oeq", ty, v, &k(-inf))?);
        }
        if mask & 0x200 != 0 {
            parts.push(self.fcmp("oeq", ty, v, &k(inf))?);
        }
        match mask & 0x60 {
            0 => {}
            0x60 => parts.push(self.fcmp("oeq", ty, v, &k(0.0))?),
            _ => return unsup("is.fpclass with one kind of zero".into()),
        }
        for (bit, lo, lp, hi, hp) in [(0x8u64, -inf, "ogt", -minn, "ole"), (0x10, -minn, "ogt", 0.0, "olt"), (0x80, 0.0, "ogt", minn, "olt"), (0x100, minn, "oge", inf, "olt")] {
            if mask & bit != 0 {
                let x = self.fcmp(lp, ty, v, &k(lo))?;
                let y = self.fcmp(hp, ty, v, &k(hi))?;
                let b = self.binop("and", &b1, &x, &y)?;
                parts.push(b);
            }
        }
        let mut r = Val::I(0);
        for p in parts {
            r = self.binop("or", &b1, &r, &p)?;
        }
        Ok(r)
    }
    fn icmp(&mut self, pred: &'static str, ty: &Ty, a: &Val, b: &Val) -> R<Val> {
        if let Ty::Vec(n, t) = ty {
            if let (Val::Agg(x), Val::Agg(y)) = (a, b) {
                let mut v = Vec::with_capacity(*n);
                for i in 0..*n {
                    v.push(self.icmp(pred, t, &x[i], &y[i])?);
                }
                return Ok(Val::Agg(Rc::new(v)));
            }
        }
        let w = match ty {
            Ty::Int(w) => *w,
            _ => 64,
        };
        match (a, b) {
            (Val::I(x), Val::I(y)) => return Ok(Val::I(icmp_const(pred, *x as u128, *y as u128, w) as u64)),
            (Val::W(x), Val::W(y)) => return Ok(Val::I(icmp_const(pred, *x, *y, w) as u64)),
            (Val::Undef, _) | (_, Val::Undef) => return Ok(Val::Undef),
            _ => {}
        }
        let x = self.to_term(a, ty)?;
        let y = self.to_term(b, ty)?;
        let t = self.terms.icmp(pred, x, y);
        self.norm(t)
    }
    fn vbits(&self, ty: &Ty, v: &Val) -> Option<(u128, u32)> {
        // flatten a fully concrete value to bits (only up to 128 bits)
        match (ty, v) {
            (Ty::Vec(n, t), Val::Agg(a)) => {
                let mut r = 0u128;
                let mut o = 0;
                for i in 0..*n {
                    let (b, w) = self.vbits(t, &a[i])?;
                    if o + w > 128 {
                        return None;
                    }
                    r |= b << o;
                    o += w;
                }
                Some((r, o))
            }
            (Ty::Int(w), Val::I(x)) => Some((*x as u128, *w)),
            (Ty::Int(w), Val::W(x)) => Some((*x, *w)),
            (Ty::Ptr, Val::I(x)) => Some((*x as u128, 64)),
            (_, Val::F32(x)) => Some((*x as u128, 32)),
            (_, Val::F64(x)) => Some((*x as u128, 64)),
            _ => None,
        }
    }
    fn from_bits(&self, ty: &Ty, bits: u128) -> Val {
        match ty {
            Ty::Vec(n, t) => {
                let w = match **t {
                    Ty::Int(w) => w,
                    Ty::F32 => 32,
                    _ => 64,
                };
                let mut v = vec![];
                for i in 0..*n {
                    let m = if w >= 128 { u128::MAX } else { (1u128 << w) - 1 };
                    v.push(self.from_bits(t, (bits >> (i as u32 * w)) & m));
                }
                Val::Agg(Rc::new(v))
            }
            _ => self.constval(ty, bits),
        }
    }
    fn scalar_bits(t: &Ty) -> u32 {
        match t {
            Ty::Int(w) => *w,
            Ty::F32 => 32,
            Ty::F64 | Ty::Ptr => 64,
            Ty::Vec(n, t) => *n as u32 * Self::scalar_bits(t),
            _ => 0,
        }
    }
    fn cast(&mut self, op: &'static str, ty: &Ty, a: &Val, to: &Ty) -> R<Val> {
        if op == "bitcast" {
            if matches!(a, Val::Undef) {
                return Ok(undef_of(to));
            }
            if let Some((b, _)) = self.vbits(ty, a) {
                return Ok(self.from_bits(to, b));
            }
            // symbolic: flatten to a concat of integer pieces then split
            let mut parts = vec![];
            match (ty, a) {
                (Ty::Vec(n, t), Val::Agg(v)) => {
                    for i in 0..*n {
                        let x = self.to_term(&v[i], t)?;
                        let x = match self.terms.sort(x) {
                            Sort::F32 => self.terms.cast("bitcast", Sort::I(32), x),
                            Sort::F64 => self.terms.cast("bitcast", Sort::I(64), x),
                            _ => x,
                        };
                        parts.push(x);
                    }
                }
                _ => {
                    let x = self.to_term(a, ty)?;
                    if let Some(s) = fsort(to) {
                        let t = self.terms.cast("bitcast", s, x);
                        return self.norm(t);
                    }
                    let x = match self.terms.sort(x) {
                        Sort::F32 => self.terms.cast("bitcast", Sort::I(32), x),
                        Sort::F64 => self.terms.cast("bitcast", Sort::I(64), x),
                        _ => x,
                    };
                    parts.push(x);
                }
            }
            // re-split
            let split = |s: &mut Self, lo: u32, w: u32, parts: &Vec<TermId>| -> R<TermId> {
                let mut o = 0;
                for p in parts.iter() {
                    let pw = match s.terms.sort(*p) {
                        Sort::I(k) => k,
                        _ => unreachable!(),
                    };
                    if lo >= o && lo + w <= o + pw {
                        return Ok(s.terms.extract(*p, lo - o, w));
                    }
                    o += pw;
                }
                // spans several
                let c = s.terms.concat(parts.clone());
                Ok(s.terms.extract(c, lo, w))
            };
            match to {
                Ty::Vec(n, t) => {
                    let w = Self::scalar_bits(t);
                    let mut v = vec![];
                    for i in 0..*n {
                        let x = split(self, i as u32 * w, w, &parts)?;
                        v.push(self.retype(x, t)?);
                    }
                    return Ok(Val::Agg(Rc::new(v)));
                }
                _ => {
                    let w = Self::scalar_bits(to);
                    let x = split(self, 0, w, &parts)?;
                    return self.retype(x, to);
                }
            }
        }
        if let (Ty::Vec(n, t), Ty::Vec(_, t2)) = (ty, to) {
            if let Val::Agg(v) = a {
                let mut r = vec![];
                for i in 0..*n {
                    r.push(self.cast(op, t, &v[i], t2)?);
                }
                return Ok(Val::Agg(Rc::new(r)));
            }
        }
        if matches!(a, Val::Undef) {
            return Ok(Val::Undef);
        }
        let tw = match to {
            Ty::Int(w) => *w,
            _ => 64,
        };
        let mk = |v: u128| -> Val {
            if tw > 64 {
                Val::W(if tw >= 128 { v } else { v & ((1u128 << tw) - 1) })
            } else {
                Val::I(v as u64 & mask(tw))
            }
        };
        let f = match a {
            Val::F64(x) => Some(f64::from_bits(*x)),
            Val::F32(x) => Some(f32::from_bits(*x) as f64),
            _ => None,
        };
        let i = match a {
            Val::I(x) => Some(*x as u128),
            Val::W(x) => Some(*x),
            _ => None,
        };
        let fw = match ty {
            Ty::Int(w) => *w,
            _ => 64,
        };
        let sx = |v: u128| -> i128 {
            if fw >= 128 {
                v as i128
            } else {
                ((v << (128 - fw)) as i128) >> (128 - fw)
            }
        };
        match (op, i, f) {
            ("zext", Some(v), _) | ("trunc", Some(v), _) | ("ptrtoint", Some(v), _) | ("inttoptr", Some(v), _) | ("ptrtoaddr", Some(v), _) => return Ok(mk(v)),
            ("sext", Some(v), _) => return Ok(mk(sx(v) as u128)),
            ("uitofp", Some(v), _) => {
                return Ok(if *to == Ty::F32 { Val::F32((v as f32).to_bits()) } else { Val::F64((v as f64).to_bits()) });
            }
            ("sitofp", Some(v), _) => {
                let v = sx(v);
                return Ok(if *to == Ty::F32 { Val::F32((v as f32).to_bits()) } else { Val::F64((v as f64).to_bits()) });
            }
            ("fpext", _, Some(x)) => return Ok(Val::F64(x.to_bits())),
            ("fptrunc", _, Some(x)) => return Ok(Val::F32((x as f32).to_bits())),
            ("fptoui", _, Some(x)) => return Ok(mk(x as u128)),
            ("fptosi", _, Some(x)) => return Ok(mk(x as i128 as u128)),
            _ => {}
        }
        let x = self.to_term(a, ty)?;
        let op = match op {
            "ptrtoint" | "inttoptr" | "ptrtoaddr" => "zext",
            o => o,
        };
        let t = self.terms.cast(op, fsort(to).unwrap(), x);
        self.norm(t)
    }
    fn select(&mut self, st: &State, cty: &Ty, c: &Val, ty: &Ty, a: &Val, b: &Val) -> R<Val> {
        if let (Ty::Vec(n, _), Val::Agg(cv)) = (cty, c) {
            if let (Ty::Vec(_, t), Val::Agg(x), Val::Agg(y)) = (ty, a, b) {
                let mut r = vec![];
                for i in 0..*n {
                    r.push(self.select(st, &Ty::Int(1), &cv[i], t, &x[i], &y[i])?);
                }
                return Ok(Val::Agg(Rc::new(r)));
            }
        }
        match c {
            Val::I(k) => return Ok(if *k & 1 == 1 { a.clone() } else { b.clone() }),
            Val::Undef => return unsup("select on undef".into()),
            _ => {}
        }
        let ct = match c {
            Val::T(t) => *t,
            _ => return unsup("select cond".into()),
        };
        if let Some(k) = self.lookup_bool(st, ct) {
            return Ok(if k { a.clone() } else { b.clone() });
        }
        if *ty == Ty::Ptr || ty.is_agg() {
            // same concrete pointers?
            if let (Val::I(x), Val::I(y)) = (a, b) {
                if x == y {
                    return Ok(a.clone());
                }
            }
            let k = self.known_bool(st, ct)?;
            return Ok(if k { a.clone() } else { b.clone() });
        }
        if matches!(a, Val::Undef) {
            return Ok(b.clone());
        }
        if matches!(b, Val::Undef) {
            return Ok(a.clone());
        }
        let x = self.to_term(a, ty)?;
        let y = self.to_term(b, ty)?;
        let t = self.terms.ite(ct, x, y);
        self.norm(t)
    }

    // ---------------------------------------------------------------- main loop
    pub fn run(&mut self, st: &mut State) -> Event {
        let mut fr = match st.frames.pop() {
            Some(f) => f,
            None => return Event::Done("ok", String::new()),
        };
        loop {
            self.icount += 1;
            st.steps += 1;
            if st.steps > self.step_limit {
                return Event::Done("limit", "step limit".into());
            }
            match self.step(st, &mut fr) {
                Ok(true) => {}
                Ok(false) => return Event::Done("ok", String::new()),
                Err(Stop::Branch(t)) => {
                    st.frames.push(fr);
                    return Event::Branch(t);
                }
                Err(Stop::Conc(t)) => {
                    st.frames.push(fr);
                    return Event::Conc(t);
                }
                Err(Stop::Done(s, d)) => {
                    let d = format!("{} (in {})", d, fr.f.name);
                    st.frames.push(fr);
                    return Event::Done(s, d);
                }
            }
        }
    }
    fn goto(&mut self, fr: &mut Frame, target: u32) -> R<()> {
        let f = fr.f.clone();
        let b = &f.blocks[target as usize];
        if !b.phis.is_empty() {
            let from = fr.block;
            let mut vals = Vec::with_capacity(b.phis.len());
            for (d, inc) in b.phis.iter() {
                let o = match inc.iter().find(|(p, _)| *p == from) {
                    Some((_, o)) => o,
                    None => return unsup(format!("phi edge {}->{}", from, target)),
                };
                vals.push((*d, self.get(fr, o)));
            }
            for (d, v) in vals {
                fr.regs[d as usize] = v;
            }
        }
        fr.block = target;
        fr.ip = 0;
        Ok(())
    }
    fn step(&mut self, st: &mut State, fr: &mut Frame) -> R<bool> {
        let f = fr.f.clone();
        let (dest, ins) = &f.blocks[fr.block as usize].ins[fr.ip];
        let r: Val = match ins {
            Ins::Bin(op, ty, a, b) => {
                let (a, b) = (self.get(fr, a), self.get(fr, b));
                self.binop(op, ty, &a, &b)?
            }
            Ins::Icmp(p, ty, a, b) => {
                let (a, b) = (self.get(fr, a), self.get(fr, b));
                self.icmp(p, ty, &a, &b)?
            }
            Ins::Fcmp(p, ty, a, b) => {
                let (a, b) = (self.get(fr, a), self.get(fr, b));
                self.fcmp(p, ty, &a, &b)?
            }
            Ins::Fneg(ty, a) => {
                let a = self.get(fr, a);
                self.fneg(ty, &a)?
            }
            Ins::Cast(op, ty, a, to) => {
                let a = self.get(fr, a);
                self.cast(op, ty, &a, to)?
            }
            Ins::Select(cty, c, ty, a, b) => {
                let (c, a, b) = (self.get(fr, c), self.get(fr, a), self.get(fr, b));
                self.select(st, cty, &c, ty, &a, &b)?
            }
            Ins::Freeze(a) => {
                let v = self.get(fr, a);
                match v {
                    Val::Undef => Val::I(0),
                    v => v,
                }
            }
            Ins::Gep(base, off, dynv) => {
                let b = self.get(fr, base);
                let b = match b {
                    Val::Undef => return unsup("gep on undef".into()),
                    b => b,
                };
                let mut a = self.need_int(st, &b)?.wrapping_add(*off as u64);
                for (t, o, sc) in dynv {
                    let v = self.get(fr, o);
                    let v = self.need_int(st, &v)?;
                    a = a.wrapping_add((sext64(v, t).wrapping_mul(*sc)) as u64);
                }
                Val::I(a)
            }
            Ins::Load(ty, p) => {
                let p = self.get(fr, p);
                let a = self.need_int(st, &p)?;
                self.load(st, a, ty)?
            }
            Ins::Store(ty, v, p) => {
                let p = self.get(fr, p);
                let a = self.need_int(st, &p)?;
                let v = self.get(fr, v);
                self.store(st, a, ty, &v)?;
                Val::Undef
            }
            Ins::Alloca(ty, n) => {
                let n = self.get(fr, n);
                let n = self.need_int(st, &n)?;
                let a = self.alloc(st, ty.size() * n, 0xCD);
                fr.allocas.push(a);
                Val::I(a)
            }
            Ins::ExtractV(v, idx) => {
                let mut v = self.get(fr, v);
                for i in idx {
                    v = match v {
                        Val::Agg(a) => a[*i].clone(),
                        _ => Val::Undef,
                    };
                }
                v
            }
            Ins::InsertV(ty, v, x, idx) => {
                let v = self.get(fr, v);
                let x = self.get(fr, x);
                fn ins(ty: &Ty, v: Val, x: Val, idx: &[usize]) -> Val {
                    if idx.is_empty() {
                        return x;
                    }
                    let mut a: Vec<Val> = match v {
                        Val::Agg(a) => (*a).clone(),
                        _ => match undef_of(ty) {
                            Val::Agg(a) => (*a).clone(),
                            _ => panic!(),
                        },
                    };
                    let (_, ft) = ty.field(idx[0]);
                    let old = std::mem::replace(&mut a[idx[0]], Val::Undef);
                    a[idx[0]] = ins(&ft, old, x, &idx[1..]);
                    Val::Agg(Rc::new(a))
                }
                ins(ty, v, x, idx)
            }
            Ins::ExtractE(v, i) => {
                let v = self.get(fr, v);
                let i = self.get(fr, i);
                let i = self.need_int(st, &i)? as usize;
                match v {
                    Val::Agg(a) if i < a.len() => a[i].clone(),
                    _ => Val::Undef,
                }
            }
            Ins::InsertE(ty, v, x, i) => {
                let v = self.get(fr, v);
                let x = self.get(fr, x);
                let i = self.get(fr, i);
                let i = self.need_int(st, &i)? as usize;
                let mut a: Vec<Val> = match v {
                    Val::Agg(a) => (*a).clone(),
                    _ => vec![Val::Undef; ty.nfields()],
                };
                a[i] = x;
                Val::Agg(Rc::new(a))
            }
            Ins::Shuffle(ty, a, b, m) => {
                let n = ty.nfields();
                let (a, b) = (self.get(fr, a), self.get(fr, b));
                let pick = |v: &Val, i: usize| match v {
                    Val::Agg(x) => x[i].clone(),
                    _ => Val::Undef,
                };
                let r = m
                    .iter()
                    .map(|k| match k {
                        None => Val::Undef,
                        Some(k) if *k < n => pick(&a, *k),
                        Some(k) => pick(&b, *k - n),
                    })
                    .collect();
                Val::Agg(Rc::new(r))
            }
            Ins::Rmw(op, ty, p, v) => {
                let p = self.get(fr, p);
                let a = self.need_int(st, &p)?;
                let old = self.load(st, a, ty)?;
                let v = self.get(fr, v);
                let new = match &**op {
                    "xchg" => v,
                    "add" => self.binop("add", ty, &old, &v)?,
                    "sub" => self.binop("sub", ty, &old, &v)?,
                    "and" => self.binop("and", ty, &old, &v)?,
                    "or" => self.binop("or", ty, &old, &v)?,
                    "xor" => self.binop("xor", ty, &old, &v)?,
                    o => return unsup(format!("atomicrmw {}", o)),
                };
                self.store(st, a, ty, &new)?;
                old
            }
            Ins::Cmpxchg(ty, p, c, n) => {
                let p = self.get(fr, p);
                let a = self.need_int(st, &p)?;
                let old = self.load(st, a, ty)?;
                let c = self.get(fr, c);
                let n = self.get(fr, n);
                let o = self.need_int(st, &old)?;
                let e = self.need_int(st, &c)?;
                if o == e {
                    self.store(st, a, ty, &n)?;
                }
                Val::Agg(Rc::new(vec![old, Val::I((o == e) as u64)]))
            }
            Ins::Fence => Val::Undef,
            Ins::Br(l) => {
                self.goto(fr, *l)?;
                return Ok(true);
            }
            Ins::CondBr(c, a, b) => {
                let c = self.get(fr, c);
                let k = self.need_bool(st, &c)?;
                self.goto(fr, if k { *a } else { *b })?;
                return Ok(true);
            }
            Ins::Switch(ty, v, d, cases) => {
                let v = self.get(fr, v);
                let target = match &v {
                    Val::I(x) => cases.iter().find(|(k, _)| k == x).map(|(_, l)| *l).unwrap_or(*d),
                    Val::T(t) => {
                        if let Some(x) = self.lookup_int(st, *t) {
                            cases.iter().find(|(k, _)| *k == x).map(|(_, l)| *l).unwrap_or(*d)
                        } else {
                            let mut tgt = *d;
                            for (k, l) in cases {
                                let c = self.icmp("eq", ty, &v, &Val::I(*k))?;
                                if self.need_bool(st, &c)? {
                                    tgt = *l;
                                    break;
                                }
                            }
                            tgt
                        }
                    }
                    _ => return unsup("switch on undef".into()),
                };
                self.goto(fr, target)?;
                return Ok(true);
            }
            Ins::Ret(v) => {
                let v = match v {
                    Some((_, o)) => self.get(fr, o),
                    None => Val::Undef,
                };
                for a in fr.allocas.iter() {
                    // release stack memory; keep the slot dead
                    st.mem[(*a >> 32) as usize] = Some(self.dead());
                }
                let (dest, normal) = (fr.dest, fr.normal);
                match st.frames.pop() {
                    None => return Ok(false),
                    Some(up) => {
                        *fr = up;
                        if let Some(d) = dest {
                            fr.regs[d as usize] = v;
                        }
                        match normal {
                            Some(l) => self.goto(fr, l)?,
                            None => fr.ip += 1,
                        }
                        return Ok(true);
                    }
                }
            }
            Ins::Unreachable => return Err(Stop::Done("unreachable", "unreachable executed".into())),
            Ins::Unsupported(s) => return unsup(format!("instruction {}", s)),
            Ins::Call { callee, args, ret, normal } => {
                // a call whose continuation is `unreachable` never returns: a panic/abort path
                let mut noret = false;
                if let Some((_, Ins::Unreachable)) = f.blocks[fr.block as usize].ins.get(fr.ip + 1) {
                    noret = true;
                }
                if let Some(l) = normal {
                    let nb = &f.blocks[*l as usize];
                    if let Some((_, Ins::Unreachable)) = nb.ins.first() {
                        noret = true;
                    }
                }
                let target: Result<usize, Rc<str>> = match callee {
                    Callee::Direct(i) => Ok(*i),
                    Callee::Named(n) => Err(n.clone()),
                    Callee::Indirect(o) => {
                        let v = self.get(fr, o);
                        let a = self.need_int(st, &v)?;
                        if a < FN_BASE {
                            return Err(Stop::Done("memfault", format!("indirect call to {:#x}", a)));
                        }
                        let k = ((a - FN_BASE) / 16) as usize;
                        if k < self.m.fdefs.len() {
                            Ok(k)
                        } else {
                            Err(self.m.externs[k - self.m.fdefs.len()].as_str().into())
                        }
                    }
                    Callee::Asm => Err("asm".into()),
                };
                if noret {
                    let n = match &target {
                        Ok(i) => self.m.fdefs[*i].0.clone(),
                        Err(n) => n.to_string(),
                    };
                    return Err(Stop::Done("panic", n));
                }
                let av: Vec<Val> = args.iter().map(|(_, o)| self.get(fr, o)).collect();
                match target {
                    Ok(i) => {
                        let name = &self.m.fdefs[i].0;
                        if is_stubbed(name) {
                            // console output: no effect on any property
                            let v = zero_of(ret);
                            if let Some(d) = dest {
                                fr.regs[*d as usize] = v;
                            }
                            match normal {
                                Some(l) => self.goto(fr, *l)?,
                                None => fr.ip += 1,
                            }
                            return Ok(true);
                        }
                        let g = self.func(i);
                        let mut regs = vec![Val::Undef; g.nregs];
                        for (k, p) in g.params.iter().enumerate() {
                            regs[*p as usize] = av[k].clone();
                        }
                        let nf = Frame { f: g, regs, block: 0, ip: 0, dest: *dest, normal: *normal, allocas: vec![] };
                        let old = std::mem::replace(fr, nf);
                        st.frames.push(old);
                        if st.frames.len() > 5000 {
                            return Err(Stop::Done("limit", "stack depth".into()));
                        }
                        return Ok(true);
                    }
                    Err(n) => {
                        let v = self.external(st, &n, args, &av, ret)?;
                        if let Some(d) = dest {
                            fr.regs[*d as usize] = v;
                        }
                        match normal {
                            Some(l) => self.goto(fr, *l)?,
                            None => fr.ip += 1,
                        }
                        return Ok(true);
                    }
                }
            }
        };
        if let Some(d) = dest {
            fr.regs[*d as usize] = r;
        }
        fr.ip += 1;
        Ok(true)
    }
    fn dead(&self) -> Rc<Alloc> {
        thread_local! { static D: Rc<Alloc> = Rc::new(Alloc{bytes:vec![],sym:BTreeMap::new(),live:false,constant:false}); }
        D.with(|d| d.clone())
    }
    fn fneg(&mut self, ty: &Ty, a: &Val) -> R<Val> {
        Ok(match (ty, a) {
            (Ty::Vec(_, t), Val::Agg(v)) => {
                let mut r = vec![];
                for x in v.iter() {
                    r.push(self.fneg(t, x)?);
                }
                Val::Agg(Rc::new(r))
            }
            (_, Val::F64(x)) => Val::F64(x ^ (1 << 63)),
            (_, Val::F32(x)) => Val::F32(x ^ (1 << 31)),
            (_, Val::T(t)) => {
                let n = &self.terms.nodes[*t as usize];
                if n.op == "fneg" {
                    Val::T(n.args[0])
                } else {
                    let s = self.terms.sort(*t);
                    Val::T(self.terms.mk("fneg", s, vec![*t], 0))
                }
            }
            _ => Val::Undef,
        })
    }

    /// element-wise application of a float function
    fn fcall(&mut self, name: &'static str, ty: &Ty, args: &[Val]) -> R<Val> {
        if let Ty::Vec(n, t) = ty {
            let mut r = vec![];
            for i in 0..*n {
                let a: Vec<Val> = args
                    .iter()
                    .map(|v| match v {
                        Val::Agg(x) => x[i].clone(),
                        o => o.clone(),
                    })
                    .collect();
                r.push(self.fcall(name, t, &a)?);
            }
            return Ok(Val::Agg(Rc::new(r)));
        }
        if args.iter().any(|a| matches!(a, Val::Undef)) {
            return Ok(Val::Undef);
        }
        let f64s: Option<Vec<f64>> = args
            .iter()
            .map(|v| match v {
                Val::F64(x) => Some(f64::from_bits(*x)),
                _ => None,
            })
            .collect();
        if let Some(a) = f64s {
            let r = match name {
                "pow" => a[0].powf(a[1]),
                "sqrt" => a[0].sqrt(),
                "fabs" => a[0].abs(),
                "fma" => a[0].mul_add(a[1], a[2]),
                "fmuladd" => a[0] * a[1] + a[2],
                "round" => a[0].round(),
                "floor" => a[0].floor(),
                "ceil" => a[0].ceil(),
                "trunc" => a[0].trunc(),
                "roundeven" => a[0].round_ties_even(),
                "fmin" => a[0].min(a[1]),
                "fmax" => a[0].max(a[1]),
                "copysign" => a[0].copysign(a[1]),
                "log10" => a[0].log10(),
                "log2" => a[0].log2(),
                "log" => a[0].ln(),
                "exp" => a[0].exp(),
                "exp2" => a[0].exp2(),
                "sin" => a[0].sin(),
                "cos" => a[0].cos(),
                "tan" => a[0].tan(),
                "asin" => a[0].asin(),
                "acos" => a[0].acos(),
                "atan" => a[0].atan(),
                "atan2" => a[0].atan2(a[1]),
                "hypot" => a[0].hypot(a[1]),
                "cbrt" => a[0].cbrt(),
                "log1p" => a[0].ln_1p(),
                "expm1" => a[0].exp_m1(),
                "fmod" => a[0] % a[1],
                "sinh" => a[0].sinh(),
                "cosh" => a[0].cosh(),
                "tanh" => a[0].tanh(),
                _ => return unsup(format!("concrete {}", name)),
            };
            return Ok(Val::F64(r.to_bits()));
        }
        let f32s: Option<Vec<f32>> = args
            .iter()
            .map(|v| match v {
                Val::F32(x) => Some(f32::from_bits(*x)),
                _ => None,
            })
            .collect();
        if let Some(a) = f32s {
            let r = match name {
                "pow" => a[0].powf(a[1]),
                "sqrt" => a[0].sqrt(),
                "fabs" => a[0].abs(),
                "fma" => a[0].mul_add(a[1], a[2]),
                "fmuladd" => a[0] * a[1] + a[2],
                "round" => a[0].round(),
                "floor" => a[0].floor(),
                "ceil" => a[0].ceil(),
                "trunc" => a[0].trunc(),
                "roundeven" => a[0].round_ties_even(),
                "fmin" => a[0].min(a[1]),
                "fmax" => a[0].max(a[1]),
                "copysign" => a[0].copysign(a[1]),
                "log10" => a[0].log10(),
                "log2" => a[0].log2(),
                "log" => a[0].ln(),
                "exp" => a[0].exp(),
                "exp2" => a[0].exp2(),
                "sin" => a[0].sin(),
                "cos" => a[0].cos(),
                "tan" => a[0].tan(),
                "atan2" => a[0].atan2(a[1]),
                "hypot" => a[0].hypot(a[1]),
                "cbrt" => a[0].cbrt(),
                "fmod" => a[0] % a[1],
                _ => return unsup(format!("concrete {}f", name)),
            };
            return Ok(Val::F32(r.to_bits()));
        }
        let mut ts = vec![];
        for v in args {
            ts.push(self.to_term(v, ty)?);
        }
        let so = fsort(ty).unwrap();
        if name == "fmuladd" {
            let m = self.terms.mk("fmul", so, vec![ts[0], ts[1]], 0);
            return Ok(Val::T(self.terms.mk("fadd", so, vec![m, ts[2]], 0)));
        }
        Ok(Val::T(self.terms.mk(name, so, ts, 0)))
    }

    fn external(&mut self, st: &mut State, name: &str, atys: &[(Ty, Op)], a: &[Val], ret: &Ty) -> R<Val> {
        macro_rules! int {
            ($i:expr) => {
                self.need_int(st, &a[$i])?
            };
        }
        if let Some(n) = name.strip_prefix("llvm.") {
            if n.starts_with("lifetime") || n.starts_with("assume") || n.starts_with("experimental.noalias") || n.starts_with("dbg") || n == "donothing" {
                return Ok(Val::Undef);
            }
            if n.starts_with("x86.sse2.pause") {
                return Ok(Val::Undef);
            }
            if n.starts_with("memcpy") || n.starts_with("memmove") {
                let (d, s, k) = (int!(0), int!(1), int!(2));
                self.copy(st, d, s, k)?;
                return Ok(Val::Undef);
            }
            if n.starts_with("memset") {
                let (d, k) = (int!(0), int!(2));
                let v = int!(1) as u8;
                if k > 0 {
                    let (id, off) = self.check(st, d, k, "write")?;
                    self.clear_sym(st, id, off as u32, (off as u64 + k) as u32);
                    let al = Rc::make_mut(st.mem[id].as_mut().unwrap());
                    for b in &mut al.bytes[off..off + k as usize] {
                        *b = v
                    }
                }
                return Ok(Val::Undef);
            }
            if n.starts_with("threadlocal.address") || n.starts_with("launder") || n.starts_with("strip.invariant") || n.starts_with("expect") {
                return Ok(a[0].clone());
            }
            if n.starts_with("is.constant") {
                return Ok(Val::I(0));
            }
            if n.starts_with("trap") {
                return Err(Stop::Done("panic", "trap".into()));
            }
            if n.starts_with("load.relative") {
                let (p, o) = (int!(0), int!(1));
                let v = self.load(st, p.wrapping_add(o), &Ty::Int(32))?;
                let v = self.need_int(st, &v)?;
                return Ok(Val::I(p.wrapping_add(sext64(v, &Ty::Int(32)) as u64)));
            }
            // float functions
            let base = n.split('.').next().unwrap();
            let f = match base {
                "pow" | "sqrt" | "fabs" | "fma" | "fmuladd" | "round" | "floor" | "ceil" | "trunc" | "copysign" | "log10" | "log2" | "log" | "exp" | "exp2"
                | "sin" | "cos" | "tan" | "atan2" | "atan" | "asin" | "acos" | "roundeven" | "sinh" | "cosh" | "tanh" => Some(base),
                "rint" | "nearbyint" => Some("roundeven"),
                "minnum" | "minimumnum" => Some("fmin"),
                "maxnum" | "maximumnum" => Some("fmax"),
                _ => None,
            };
            if let Some(f) = f {
                let f = self.terms.intern(f);
                return self.fcall(f, ret, a);
            }
            if n.starts_with("is.fpclass") {
                let mask = int!(1);
                let ty = atys[0].0.clone();
                return self.fpclass(&ty, &a[0], mask);
            }
            if base == "powi" {
                let k = int!(1);
                let k = sext64(k, &Ty::Int(32)) as i32;
                return match &a[0] {
                    Val::F64(x) => Ok(Val::F64(f64::from_bits(*x).powi(k).to_bits())),
                    Val::F32(x) => Ok(Val::F32(f32::from_bits(*x).powi(k).to_bits())),
                    Val::T(t) => {
                        let s = self.terms.sort(*t);
                        Ok(Val::T(self.terms.mk("powi", s, vec![*t], k as i64 as u64 as u128)))
                    }
                    _ => Ok(Val::Undef),
                };
            }
            if n.starts_with("fptoui.sat") || n.starts_with("fptosi.sat") {
                let w = match ret {
                    Ty::Int(w) => *w,
                    _ => return unsup(name.into()),
                };
                let signed = n.starts_with("fptosi");
                let x = match &a[0] {
                    Val::F64(x) => f64::from_bits(*x),
                    Val::F32(x) => f32::from_bits(*x) as f64,
                    Val::T(t) => {
                        let op = if signed { "fptosi_sat" } else { "fptoui_sat" };
                        return Ok(Val::T(self.terms.mk(op, Sort::I(w), vec![*t], 0)));
                    }
                    _ => return Ok(Val::Undef),
                };
                let v = if signed {
                    let (lo, hi) = (-(1i128 << (w - 1)), (1i128 << (w - 1)) - 1);
                    let v = x as i128;
                    v.max(lo).min(hi) as u128
                } else {
                    let hi = if w >= 128 { u128::MAX } else { (1u128 << w) - 1 };
                    (x as u128).min(hi)
                };
                return Ok(self.constval(ret, v));
            }
            // x86 vector helpers
            if n.starts_with("x86.avx.hadd.ps.256") {
                if let (Val::Agg(x), Val::Agg(y)) = (&a[0], &a[1]) {
                    let mut r = vec![];
                    for half in 0..2 {
                        for src in [x, y] {
                            for j in 0..2 {
                                let p = half * 4 + 2 * j;
                                let v = self.binop("fadd", &Ty::F32, &src[p].clone(), &src[p + 1].clone())?;
                                r.push(v);
                            }
                        }
                    }
                    return Ok(Val::Agg(Rc::new(r)));
                }
            }
            if n.starts_with("vector.reduce.") {
                let op = n.split('.').nth(2).unwrap();
                if let Val::Agg(x) = &a[0] {
                    if let Ty::Vec(_, t) = &atys[0].0 {
                        let op = match op {
                            "or" => "or",
                            "and" => "and",
                            "add" => "add",
                            "xor" => "xor",
                            _ => return unsup(name.into()),
                        };
                        let mut r = x[0].clone();
                        for v in x[1..].iter() {
                            r = self.binop(op, t, &r, v)?;
                        }
                        return Ok(r);
                    }
                }
            }
            return self.int_intrinsic(st, base, n, a, ret, atys);
        }
        match name {
            "malloc" | "calloc" | "aligned_alloc" => {
                let sz = match name {
                    "malloc" => int!(0),
                    "calloc" => int!(0) * int!(1),
                    _ => int!(1),
                };
                if sz > 1 << 31 {
                    return Err(Stop::Done("limit", format!("allocation of {} bytes", sz)));
                }
                let fill = if name == "calloc" { 0 } else { 0xAB };
                Ok(Val::I(self.alloc(st, sz, fill)))
            }
            "posix_memalign" => {
                let sz = int!(2);
                let p = self.alloc(st, sz, 0xAB);
                let d = int!(0);
                self.store(st, d, &Ty::Ptr, &Val::I(p))?;
                Ok(Val::I(0))
            }
            "realloc" => {
                let (p, sz) = (int!(0), int!(1));
                let n = self.alloc(st, sz, 0xAB);
                if p != 0 {
                    let old = st.mem[(p >> 32) as usize].as_ref().unwrap().bytes.len() as u64;
                    self.copy(st, n, p, old.min(sz))?;
                    st.mem[(p >> 32) as usize] = Some(self.dead());
                }
                Ok(Val::I(n))
            }
            "free" => {
                let p = int!(0);
                if p != 0 {
                    let id = (p >> 32) as usize;
                    if p & 0xffff_ffff != 0 || id >= st.mem.len() || !st.mem[id].as_ref().map(|a| a.live).unwrap_or(false) {
                        return Err(Stop::Done("memfault", "invalid free".into()));
                    }
                    st.mem[id] = Some(self.dead());
                }
                Ok(Val::Undef)
            }
            "bcmp" | "memcmp" => {
                let (p, q, n) = (int!(0), int!(1), int!(2));
                for i in 0..n {
                    let x = self.load(st, p + i, &Ty::Int(8))?;
                    let y = self.load(st, q + i, &Ty::Int(8))?;
                    let e = self.icmp("eq", &Ty::Int(8), &x, &y)?;
                    if !self.need_bool(st, &e)? {
                        if name == "bcmp" {
                            return Ok(Val::I(1));
                        }
                        let l = self.icmp("ult", &Ty::Int(8), &x, &y)?;
                        return Ok(Val::I(if self.need_bool(st, &l)? { 0xffff_ffff } else { 1 }));
                    }
                }
                Ok(Val::I(0))
            }
            "strlen" => {
                let p = int!(0);
                let mut n = 0;
                loop {
                    let x = self.load(st, p + n, &Ty::Int(8))?;
                    if self.need_int(st, &x)? == 0 {
                        return Ok(Val::I(n));
                    }
                    n += 1;
                }
            }
            "memcpy" | "memmove" => {
                let (d, s, k) = (int!(0), int!(1), int!(2));
                self.copy(st, d, s, k)?;
                Ok(Val::I(d))
            }
            "syscall" => {
                // only futex wake (returns 0) and getrandom (fill with a fixed pattern) occur
                let nr = int!(0);
                if nr == 318 {
                    let (p, n) = (int!(1), int!(2));
                    for i in 0..n {
                        self.store(st, p + i, &Ty::Int(8), &Val::I((i * 37 + 11) & 0xff))?;
                    }
                    return Ok(Val::I(n));
                }
                Ok(Val::I(0))
            }
            "getrandom" => {
                let (p, n) = (int!(0), int!(1));
                for i in 0..n {
                    self.store(st, p + i, &Ty::Int(8), &Val::I((i * 37 + 11) & 0xff))?;
                }
                Ok(Val::I(n))
            }
            "write" => Ok(Val::I(int!(2))),
            "getenv" => Ok(Val::I(0)),
            "__errno_location" => Ok(Val::I(self.alloc(st, 8, 0))),
            "__cxa_thread_atexit_impl" => Ok(Val::I(0)),
            "asm" => Ok(undef_of(ret)),
            _ => {
                // libm
                let (b, so) = if name.ends_with('f') && matches!(ret, Ty::F32) {
                    (&name[..name.len() - 1], Ty::F32)
                } else {
                    (name, Ty::F64)
                };
                match b {
                    "pow" | "sqrt" | "log10" | "log2" | "log" | "exp" | "exp2" | "sin" | "cos" | "tan" | "asin" | "acos" | "atan" | "atan2" | "hypot"
                    | "cbrt" | "fmod" | "round" | "floor" | "ceil" | "trunc" | "fma" | "fmin" | "fmax" | "log1p" | "expm1" | "sinh" | "cosh" | "tanh" => {
                        let f = self.terms.intern(b);
                        self.fcall(f, &so, a)
                    }
                    _ => unsup(format!("external function {}", name)),
                }
            }
        }
    }
    fn int_intrinsic(&mut self, st: &mut State, base: &str, full: &str, a: &[Val], ret: &Ty, atys: &[(Ty, Op)]) -> R<Val> {
        if let Ty::Vec(n, t) = ret {
            let mut r = vec![];
            for i in 0..*n {
                let e: Vec<Val> = a
                    .iter()
                    .map(|v| match v {
                        Val::Agg(x) => x[i].clone(),
                        o => o.clone(),
                    })
                    .collect();
                r.push(self.int_intrinsic(st, base, full, &e, t, atys)?);
            }
            return Ok(Val::Agg(Rc::new(r)));
        }
        if a.iter().any(|v| matches!(v, Val::Undef)) {
            return Ok(undef_of(ret));
        }
        let ty = atys[0].0.clone();
        let ty = if let Ty::Vec(_, t) = &ty { (**t).clone() } else { ty };
        let w = match &ty {
            Ty::Int(w) => *w,
            Ty::Ptr => 64,
            _ => return unsup(format!("llvm.{}", full)),
        };
        let two = full.contains(".with.overflow");
        let sel = |s: &mut Self, p: &'static str, x: &Val, y: &Val| -> R<Val> {
            let c = s.icmp(p, &ty, x, y)?;
            match c {
                Val::I(k) => Ok(if k == 1 { x.clone() } else { y.clone() }),
                Val::T(t) => {
                    let (p, q) = (s.to_term(x, &ty)?, s.to_term(y, &ty)?);
                    let r = s.terms.ite(t, p, q);
                    s.norm(r)
                }
                _ => Ok(Val::Undef),
            }
        };
        match base {
            "umax" => return sel(self, "ugt", &a[0], &a[1]),
            "umin" => return sel(self, "ult", &a[0], &a[1]),
            "smax" => return sel(self, "sgt", &a[0], &a[1]),
            "smin" => return sel(self, "slt", &a[0], &a[1]),
            _ => {}
        }
        let symbolic = a.iter().any(|v| matches!(v, Val::T(_)));
        if symbolic {
            match base {
                "usub" if full.starts_with("usub.sat") => {
                    let c = self.icmp("ult", &ty, &a[0], &a[1])?;
                    let d = self.binop("sub", &ty, &a[0], &a[1])?;
                    return self.select(st, &Ty::Int(1), &c, &ty, &zero_of(&ty), &d);
                }
                "abs" => {
                    let z = zero_of(&ty);
                    let c = self.icmp("slt", &ty, &a[0], &z)?;
                    let d = self.binop("sub", &ty, &z, &a[0])?;
                    return self.select(st, &Ty::Int(1), &c, &ty, &d, &a[0]);
                }
                "uadd" if two => {
                    let s = self.binop("add", &ty, &a[0], &a[1])?;
                    let c = self.icmp("ult", &ty, &s, &a[0])?;
                    return Ok(Val::Agg(Rc::new(vec![s, c])));
                }
                "usub" if two => {
                    let s = self.binop("sub", &ty, &a[0], &a[1])?;
                    let c = self.icmp("ult", &ty, &a[0], &a[1])?;
                    return Ok(Val::Agg(Rc::new(vec![s, c])));
                }
                "ssub" | "sadd" if two => {
                    let op = if base == "ssub" { "sub" } else { "add" };
                    let s = self.binop(op, &ty, &a[0], &a[1])?;
                    let z = zero_of(&ty);
                    let x = self.binop("xor", &ty, &a[0], &a[1])?;
                    let y = self.binop("xor", &ty, &a[0], &s)?;
                    let c = if base == "ssub" {
                        self.binop("and", &ty, &x, &y)?
                    } else {
                        let m = self.constval(&ty, u128::MAX);
                        let nx = self.binop("xor", &ty, &x, &m)?;
                        self.binop("and", &ty, &nx, &y)?
                    };
                    let c = self.icmp("slt", &ty, &c, &z)?;
                    return Ok(Val::Agg(Rc::new(vec![s, c])));
                }
                "ssub" if full.starts_with("ssub.sat") => {
                    // saturating: a-b with overflow -> min/max by sign of a
                    let s = self.binop("sub", &ty, &a[0], &a[1])?;
                    let z = zero_of(&ty);
                    let x = self.binop("xor", &ty, &a[0], &a[1])?;
                    let y = self.binop("xor", &ty, &a[0], &s)?;
                    let c = self.binop("and", &ty, &x, &y)?;
                    let ov = self.icmp("slt", &ty, &c, &z)?;
                    let neg = self.icmp("slt", &ty, &a[0], &z)?;
                    let mn = self.constval(&ty, 1u128 << (w - 1));
                    let mx = self.constval(&ty, (1u128 << (w - 1)) - 1);
                    let sat = self.select(st, &Ty::Int(1), &neg, &ty, &mn, &mx)?;
                    return self.select(st, &Ty::Int(1), &ov, &ty, &sat, &s);
                }
                "fshl" | "fshr" | "ctlz" | "cttz" | "ctpop" | "bswap" | "bitreverse" | "umul" | "smul" | "ucmp" | "scmp" | "uadd" => {
                    // fall back to concretisation of the operands
                    let mut b = vec![];
                    for v in a {
                        let x = self.need_int(st, v)?;
                        b.push(Val::I(x));
                    }
                    return self.int_intrinsic(st, base, full, &b, ret, atys);
                }
                _ => return unsup(format!("symbolic llvm.{}", full)),
            }
        }
        let g = |i: usize| -> u128 {
            match &a[i] {
                Val::I(x) => *x as u128,
                Val::W(x) => *x,
                _ => 0,
            }
        };
        let m: u128 = if w >= 128 { u128::MAX } else { (1u128 << w) - 1 };
        let sx = |v: u128| -> i128 {
            if w >= 128 {
                v as i128
            } else {
                ((v << (128 - w)) as i128) >> (128 - w)
            }
        };
        let smax = ((1u128 << (w - 1)) - 1) as i128;
        let smin = -smax - 1;
        let pair = |s: &Self, v: u128, o: bool| Val::Agg(Rc::new(vec![s.constval(&ty, v & m), Val::I(o as u64)]));
        let r: u128 = match base {
            "abs" => (sx(g(0)).wrapping_abs()) as u128,
            "ctlz" => (g(0).leading_zeros() - (128 - w)) as u128,
            "cttz" => {
                if g(0) == 0 {
                    w as u128
                } else {
                    g(0).trailing_zeros() as u128
                }
            }
            "ctpop" => g(0).count_ones() as u128,
            "bswap" => g(0).swap_bytes() >> (128 - w),
            "bitreverse" => g(0).reverse_bits() >> (128 - w),
            "fshl" => {
                let s = (g(2) % w as u128) as u32;
                if s == 0 {
                    g(0)
                } else {
                    (g(0) << s) | (g(1) >> (w - s))
                }
            }
            "fshr" => {
                let s = (g(2) % w as u128) as u32;
                if s == 0 {
                    g(1)
                } else {
                    (g(0) << (w - s)) | (g(1) >> s)
                }
            }
            "ucmp" => (if g(0) < g(1) { -1i128 } else if g(0) > g(1) { 1 } else { 0 }) as u128,
            "scmp" => (if sx(g(0)) < sx(g(1)) { -1i128 } else if sx(g(0)) > sx(g(1)) { 1 } else { 0 }) as u128,
            "uadd" if two => return Ok(pair(self, g(0).wrapping_add(g(1)), w < 128 && g(0) + g(1) > m)),
            "usub" if two => return Ok(pair(self, g(0).wrapping_sub(g(1)), g(0) < g(1))),
            "umul" if two => {
                let (p, o) = g(0).overflowing_mul(g(1));
                return Ok(pair(self, p, o || p > m));
            }
            "sadd" if two => {
                let v = sx(g(0)).wrapping_add(sx(g(1)));
                return Ok(pair(self, v as u128, v > smax || v < smin));
            }
            "ssub" if two => {
                let v = sx(g(0)).wrapping_sub(sx(g(1)));
                return Ok(pair(self, v as u128, v > smax || v < smin));
            }
            "smul" if two => {
                let (v, o) = sx(g(0)).overflowing_mul(sx(g(1)));
                return Ok(pair(self, v as u128, o || v > smax || v < smin));
            }
            "usub" => g(0).saturating_sub(g(1)),
            "uadd" => {
                let (v, o) = g(0).overflowing_add(g(1));
                if o || v > m {
                    m
                } else {
                    v
                }
            }
            "ssub" => (sx(g(0)) - sx(g(1))).max(smin).min(smax) as u128,
            "sadd" => (sx(g(0)) + sx(g(1))).max(smin).min(smax) as u128,
            _ => return unsup(format!("llvm.{}", full)),
        };
        Ok(match ret {
            Ty::Int(rw) => {
                let rm: u128 = if *rw >= 128 { u128::MAX } else { (1u128 << rw) - 1 };
                self.constval(ret, r & rm)
            }
            _ => self.constval(ret, r & m),
        })
    }
}

fn is_stubbed(name: &str) -> bool {
    // std::io::_print / _eprint (both v0 and legacy mangling)
    name.contains("2io5stdio6__print") || name.contains("2io5stdio6_print") || name.contains("2io5stdio7__eprint") || name.contains("2io5stdio7_eprint")
}
