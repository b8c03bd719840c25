//! irsym: a symbolic executor for the LLVM IR of the linked program.
//! Addresses and control state are concrete; data may be symbolic terms.
//! It is driven through stdin/stdout by the Python side, which owns the solver.
mod exec;
mod ir;
mod term;

use exec::*;
use std::io::{BufRead, Write};
use term::*;

pub fn icmp_const(pred: &str, x: u128, y: u128, w: u32) -> bool {
    let sx = |v: u128| -> i128 {
        if w >= 128 {
            v as i128
        } else {
            ((v << (128 - w)) as i128) >> (128 - w)
        }
    };
    match pred {
        "eq" => x == y,
        "ne" => x != y,
        "ugt" => x > y,
        "uge" => x >= y,
        "ult" => x < y,
        "ule" => x <= y,
        "sgt" => sx(x) > sx(y),
        "sge" => sx(x) >= sx(y),
        "slt" => sx(x) < sx(y),
        "sle" => sx(x) <= sx(y),
        _ => panic!("icmp {}", pred),
    }
}

fn parse_sort(s: &str) -> Sort {
    match s {
        "f32" => Sort::F32,
        "f64" => Sort::F64,
        _ => Sort::I(s[1..].parse().unwrap()),
    }
}

fn sort_name(s: Sort) -> String {
    match s {
        Sort::F32 => "f32".into(),
        Sort::F64 => "f64".into(),
        Sort::I(n) => format!("i{}", n),
    }
}

fn main() {
    let path = std::env::args().nth(1).expect("usage: irsym FILE.ll");
    let text = std::fs::read(&path).expect("read ll");
    let module = ir::Module::parse(text);
    let mut ex = Exec::new(module);
    let stdin = std::io::stdin();
    let out = std::io::stdout();
    let mut out = out.lock();
    for line in stdin.lock().lines() {
        let line = line.unwrap();
        let w: Vec<&str> = line.split_whitespace().collect();
        if w.is_empty() {
            continue;
        }
        match w[0] {
            "quit" => return,
            "var" => {
                let t = ex.terms.var(w[1], parse_sort(w[2]));
                writeln!(out, "ok {}", t).unwrap();
            }
            // init FN : run a harness without input, keep its memory as the base state
            "init" => {
                let mut st = ex.start(w[1], &[], 8);
                match st {
                    Ok(ref mut s) => {
                        let ev = ex.run(s);
                        if let Event::Done(stt, d) = ev {
                            if stt == "ok" {
                                let s = st.unwrap();
                                ex.set_base(s);
                                writeln!(out, "ok").unwrap();
                            } else {
                                writeln!(out, "err {} {}", stt, d).unwrap();
                            }
                        } else {
                            writeln!(out, "err symbolic").unwrap();
                        }
                    }
                    Err(e) => writeln!(out, "err {}", e).unwrap(),
                }
            }
            // start FN OUTBYTES slot slot ...   slot = ty:hexbits | ty:t<ID>
            "start" => {
                let nout: u64 = w[2].parse().unwrap();
                let slots: Vec<(Sort, Slot)> = w[3..]
                    .iter()
                    .map(|s| {
                        let (ty, v) = s.split_once(':').unwrap();
                        let so = parse_sort(ty);
                        if let Some(t) = v.strip_prefix('t') {
                            (so, Slot::Term(t.parse().unwrap()))
                        } else {
                            (so, Slot::Bits(u64::from_str_radix(v, 16).unwrap()))
                        }
                    })
                    .collect();
                match ex.start(w[1], &slots, nout) {
                    Ok(s) => {
                        let r = ex.advance(s);
                        writeln!(out, "{}", r).unwrap();
                    }
                    Err(e) => writeln!(out, "err {}", e).unwrap(),
                }
            }
            // fork SID 0|1
            "fork" => {
                let sid: u64 = w[1].parse().unwrap();
                let d = w[2] == "1";
                let r = ex.fork(sid, d);
                writeln!(out, "{}", r).unwrap();
            }
            "conc" => {
                let sid: u64 = w[1].parse().unwrap();
                let v: u64 = w[2].parse().unwrap();
                let r = ex.conc(sid, v);
                writeln!(out, "{}", r).unwrap();
            }
            "drop" => {
                let sid: u64 = w[1].parse().unwrap();
                ex.states.remove(&sid);
                writeln!(out, "ok").unwrap();
            }
            // outs SID ty off count
            "outs" => {
                let sid: u64 = w[1].parse().unwrap();
                let so = parse_sort(w[2]);
                let off: u64 = w[3].parse().unwrap();
                let n: u64 = w[4].parse().unwrap();
                let r = ex.read_out(sid, so, off, n);
                writeln!(out, "{}", r).unwrap();
            }
            // terms FROM : dump terms
            "terms" => {
                let from: usize = w[1].parse().unwrap();
                let n = ex.terms.nodes.len();
                writeln!(out, "{}", n.saturating_sub(from)).unwrap();
                for i in from..n {
                    let nd = &ex.terms.nodes[i];
                    let mut s = format!("{} {} {:x}", nd.op, sort_name(nd.sort), nd.imm);
                    if nd.op == "var" {
                        s = format!("var {} {}", sort_name(nd.sort), ex.terms.varnames[&(i as u32)]);
                    } else {
                        for a in nd.args.iter() {
                            s.push(' ');
                            s.push_str(&a.to_string());
                        }
                    }
                    writeln!(out, "{}", s).unwrap();
                }
            }
            "funcs" => {
                let mut v: Vec<String> = ex.executed();
                v.sort();
                writeln!(out, "{} {}", ex.icount, v.join(" ")).unwrap();
            }
            _ => writeln!(out, "err unknown command {}", w[0]).unwrap(),
        }
        out.flush().unwrap();
    }
}
