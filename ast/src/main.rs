//! Calls the real functions of sm_ast on inputs read from stdin, one call per line, and prints one result per line.
//! Texts travel in hexadecimal.  Trees: e | p[tree*] | b0 | b1 | i<digits>. | d<digits>. | y<hex>. | s<hex>. | f<n|p|i|s><hex>.([tree*{tree tree ..}]*)
//! (the trees in braces are the options of that argument list: name, value, name, value, ..)
use num::BigInt;
use sm_ast::parser::{infix_map, prefix_map, suffix_map, ParserSettings, OPERATORS};
use sm_ast::*;
use std::io::{BufRead, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::str::FromStr;
use wolfram_wxf::WolframValue;

fn unhex(s: &str) -> String {
    let b: Vec<u8> = (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect();
    String::from_utf8(b).unwrap()
}
fn hex(s: &str) -> String { s.bytes().map(|b| format!("{:02x}", b)).collect() }

macro_rules! symbol {
    ($k:expr, $n:expr) => {
        match $k {
            'p' => prefix_map($n),
            'i' => infix_map($n),
            's' => suffix_map($n),
            _ => match AST::symbol($n) { AST::Symbol(s) => s, _ => panic!("symbol") },
        }
    };
}
struct Rd<'a> { s: &'a [u8], i: usize }
impl<'a> Rd<'a> {
    fn next(&mut self) -> char { self.i += 1; self.s[self.i - 1] as char }
    fn peek(&self) -> char { if self.i < self.s.len() { self.s[self.i] as char } else { ' ' } }
    fn word(&mut self) -> String {
        let mut o = String::new();
        loop { let c = self.next(); if c == '.' { return o } o.push(c) }
    }
    fn tree(&mut self) -> AST {
        match self.next() {
            'e' => AST::EmptyStatement,
            'p' => {
                let mut v = vec![];
                self.next();
                while self.peek() != ']' { let t = self.tree(); v.push(t) }
                self.next();
                AST::Program(v)
            }
            'b' => AST::Boolean(self.next() == '1'),
            'i' => AST::integer(BigInt::from_str(&self.word()).unwrap()),
            'd' => AST::decimal(BigInt::from_str(&self.word()).unwrap()),
            'y' => AST::symbol(unhex(&self.word())),
            's' => AST::string(unhex(&self.word())),
            'f' => {
                let k = self.next();
                let n = unhex(&self.word());
                let s = symbol!(k, &n);
                let tmpl = match (ParserSettings { file: String::from("anonymous"), refine: true }).parse("f(1)") { Ok(AST::Function(_, p)) => p, _ => panic!("no-template") };
                let mut ps = tmpl.clone();
                ps.clear();
                self.next();
                while self.peek() == '[' {
                    self.next();
                    let mut p = tmpl[0].clone();
                    p.arguments.clear();
                    while self.peek() != ']' && self.peek() != '{' { let t = self.tree(); p.arguments.push(t) }
                    if self.peek() == '{' {
                        self.next();
                        while self.peek() != '}' { let (k, v) = (self.tree(), self.tree()); p.options.insert(k, v); }
                        self.next();
                    }
                    self.next();
                    ps.push(p);
                }
                self.next();
                AST::Function(s, ps)
            }
            c => panic!("tree {}", c),
        }
    }
}
fn tree(s: &str) -> AST { Rd { s: s.as_bytes(), i: 0 }.tree() }
/// shallow literal form of a tree
fn lit(t: &AST) -> String {
    match t {
        AST::EmptyStatement => "e".into(),
        AST::Program(_) => "p".into(),
        AST::Boolean(b) => format!("b{}", if *b { 1 } else { 0 }),
        AST::Integer(n) => format!("i{}.", n),
        AST::Decimal(n) => format!("d{}.", n),
        AST::Symbol(s) => format!("y{}.", hex(&name(s.name_space.iter().map(|x| &x[..]).collect(), &s.name))),
        AST::String(s) => format!("s{}.", hex(s)),
        AST::Function(s, ps) => format!("f{}({})", hex(&name(s.name_space.iter().map(|x| &x[..]).collect(), &s.name)),
            ps.iter().map(|p| format!("[{}]", p.arguments.iter().map(lit).collect::<Vec<_>>().concat())).collect::<Vec<_>>().concat()),
    }
}
/// literal form of a tree with everything in it; options in the order of their names' literal forms
fn full(t: &AST) -> String {
    match t {
        AST::Program(v) => format!("p[{}]", v.iter().map(full).collect::<Vec<_>>().concat()),
        AST::Decimal(n) => format!("d{}|", n),
        AST::Function(s, ps) => format!("fn{}.({})", hex(&name(s.name_space.iter().map(|x| &x[..]).collect(), &s.name)),
            ps.iter().map(|p| {
                let mut o: Vec<String> = p.options.iter().map(|(k, v)| full(k) + &full(v)).collect();
                o.sort();
                let a = p.arguments.iter().map(full).collect::<Vec<_>>().concat();
                if o.is_empty() { format!("[{}]", a) } else { format!("[{}{{{}}}]", a, o.concat()) }
            }).collect::<Vec<_>>().concat()),
        t => lit(t),
    }
}
/// an exported value: k | i<digits>. | d<hex>. | y<hex>. | s<hex>. | F<head>[<item>*]
fn wolf(w: &WolframValue) -> String {
    match w {
        WolframValue::Skip => "k".into(),
        WolframValue::BigInteger(n) => format!("i{}.", n),
        WolframValue::BigDecimal(s) => format!("d{}.", hex(s)),
        WolframValue::Symbol(s) => format!("y{}.", hex(s)),
        WolframValue::String(s) => format!("s{}.", hex(s)),
        WolframValue::Function(h, v) => format!("F{}[{}]", wolf(h), v.iter().map(wolf).collect::<Vec<_>>().concat()),
    }
}
fn name<'a>(mut ns: Vec<&'a str>, n: &'a str) -> String { ns.push(n); ns.join("::") }
fn err(e: &SMError) -> String {
    match e {
        SMError::Unknown => "err Unknown".into(),
        SMError::IOError(s) => format!("err IOError {}", hex(s)),
        SMError::ParseError(_) => "err ParseError".into(),
        SMError::EmptyContainer(_) => "err EmptyContainer".into(),
        SMError::Overflow => "err Overflow".into(),
        SMError::Infinity => "err Infinity".into(),
        SMError::ComplexInfinity => "err ComplexInfinity".into(),
        SMError::Unimplemented(_) => "err Unimplemented".into(),
        SMError::Unreachable(_) => "err Unreachable".into(),
    }
}
fn res(r: &SMResult<AST>) -> String { match r { Ok(t) => format!("ok {}", lit(t)), Err(e) => err(e) } }
fn alg(e: sm_algorithm::Result<BigInt>) -> String { match e { Ok(x) => format!("ok i{}.", x), Err(e) => format!("err {}", kind(&e)) } }
fn kind(e: &sm_algorithm::Error) -> &'static str {
    use sm_algorithm::Error::*;
    match e { OverFlow => "OverFlow", ComplexInfinity => "ComplexInfinity", IOError(_) => "IOError", Unimplemented => "Unimplemented", Indeterminate => "Indeterminate", Undefined(_) => "Undefined" }
}
fn guard<T>(f: impl FnOnce() -> T) -> Option<T> { catch_unwind(AssertUnwindSafe(f)).ok() }

fn call(w: &[&str]) -> String {
    use sm_algorithm::Error as E;
    match w[0] {
        "op" => {
            let t = unhex(w[2]);
            let s = symbol!(w[1].chars().next().unwrap(), &t);
            format!("{} {} {}", hex(&s.name), hex(&s.name_space.join("\u{1}")), hex(&format!("{:?}", s.kind)))
        }
        "prec" => OPERATORS.iter().map(|o| format!("{:?}:{}", o.0, o.1)).collect::<Vec<_>>().join(" "),
        "sym" => match AST::symbol(unhex(w[1])) {
            AST::Symbol(s) => format!("{} {} {} {}", hex(&s.name), s.name_space.len(), hex(&s.name_space.join("\u{1}")), hex(&format!("{}", AST::Symbol(s.clone())))),
            _ => "not-a-symbol".into(),
        },
        "eval" => {
            let t = tree(w[1]);
            let mut c = Context::default();
            let before = format!("{:?}", c);
            let r = t.forward(&mut c);
            let same = match (&t, &r) {
                (AST::Function(s, _), Ok(v)) => format!("{:?}", AST::Symbol(s.clone())) == format!("{:?}", v),
                (t, Ok(v)) => format!("{:?}", t) == format!("{:?}", v),
                _ => false,
            };
            format!("{} {} {}", if before == format!("{:?}", c) { "kept" } else { "changed" }, if same { "same" } else { "other" }, res(&r))
        }
        "call" => {
            let t = tree(w[2]);
            match w[1] {
                "first" => res(&internal::first(&t)),
                "last" => res(&internal::last(&t)),
                "length" => res(&internal::length(&t)),
                "factorial" => res(&internal::factorial(&t)),
                "fibonacci" => res(&internal::fibonacci(&t)),
                _ => "bad-command".into(),
            }
        }
        "alg" => {
            let n = BigInt::from_str(w[2]).unwrap();
            match w[1] { "factorial" => alg(sm_algorithm::factorial_i(&n)), "fibonacci" => alg(sm_algorithm::fibonacci_i(&n)), "prime_sum" => alg(sm_algorithm::prime_sum_i(&n)), _ => "bad-command".into() }
        }
        "error" => {
            let t = unhex(w.get(2).unwrap_or(&""));
            let e = match w[1] { "OverFlow" => E::OverFlow, "ComplexInfinity" => E::ComplexInfinity, "IOError" => E::IOError(t), "Unimplemented" => E::Unimplemented, "Indeterminate" => E::Indeterminate, _ => E::Undefined(t.into()) };
            err(&SMError::from(e))
        }
        "session" => {
            // one field per step: answer | last | expected answer | expected last | state
            let mut r = Runner::default();
            let mut out = vec![format!("-|{}|-|-|{}", guard(|| r.last()).map_or("panic".into(), |l| res(&l)), hex(&format!("{:?}", r)))];
            for x in w[1].split(',') {
                let t = unhex(x);
                let a = guard(|| r.evaluate(&t)).map_or("panic".into(), |a| match a { Ok(s) => format!("ok {}", hex(&s)), Err(e) => err(&e) });
                let l = guard(|| r.last()).map_or("panic".into(), |l| match l { Ok(v) => format!("ok {}", hex(&format!("{:?}", v))), Err(e) => err(&e) });
                let v = guard(|| (ParserSettings { file: String::from("anonymous"), refine: true }).parse(&t).and_then(|p| p.forward(&mut Context::default())));
                let (ea, el) = match v {
                    None => ("panic".into(), "panic".into()),
                    Some(Ok(v)) => (guard(|| format!("{}", v)).map_or("panic".into(), |s| format!("ok {}", hex(&s))), format!("ok {}", hex(&format!("{:?}", v)))),
                    Some(Err(e)) => (err(&e), "none".into()),
                };
                out.push(format!("{}|{}|{}|{}|{}", a, l, ea, el, hex(&format!("{:?}", r))));
            }
            out.join(";")
        }
        "parse" => (ParserSettings { file: String::from("anonymous"), refine: true }).parse(&unhex(w[1])).map_or_else(|e| err(&e), |t| format!("ok {}", full(&t))),
        "show" => {
            let t = tree(w[1]);
            let s = format!("{}", t);
            let back = guard(|| (ParserSettings { file: String::from("anonymous"), refine: true }).parse(&s)).map_or("panic".into(), |r| res(&r));
            format!("{} {}", hex(&s), back)
        }
        "wolf" => wolf(&tree(w[1]).to_wolfram()),
        _ => "bad-command".into(),
    }
}
fn main() {
    std::panic::set_hook(Box::new(|_| ()));
    let run = || {
        let inp = std::io::stdin(); let out = std::io::stdout();
        for l in inp.lock().lines() {
            let l = l.unwrap(); let w: Vec<&str> = l.split(' ').collect();
            let r = match catch_unwind(AssertUnwindSafe(|| call(&w))) {
                Ok(r) => r,
                Err(e) => format!("panic {}", e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default().replace('\n', " ")),
            };
            let mut o = out.lock(); writeln!(o, "{}", r).unwrap(); o.flush().unwrap();
        }
    };
    std::thread::Builder::new().stack_size(256 << 20).spawn(run).unwrap().join().unwrap();
}
