//! Calls the real functions of sm_algorithm on inputs read from stdin, one call per line, and prints one result per line.
use num::{BigInt, BigUint, Num, Signed};
use sm_algorithm::*;
use std::io::{BufRead, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};

fn int(s: &str) -> BigInt { BigInt::from_str_radix(s, 16).unwrap() }
fn nat(s: &str) -> BigUint { BigUint::from_str_radix(s, 16).unwrap() }
fn list(s: &str) -> Vec<BigInt> { if s == "[]" { vec![] } else { s.split(',').map(int).collect() } }
fn hex(x: &BigInt) -> String { if x.is_negative() { format!("-{}", x.abs().to_str_radix(16)) } else { x.to_str_radix(16) } }
fn nhex(x: &BigUint) -> String { x.to_str_radix(16) }
fn res(r: Result<BigInt>) -> String {
    match r {
        Ok(x) => format!("ok {}", hex(&x)),
        Err(Error::OverFlow) => "err OverFlow".into(),
        Err(Error::ComplexInfinity) => "err ComplexInfinity".into(),
        Err(Error::IOError(_)) => "err IOError".into(),
        Err(Error::Unimplemented) => "err Unimplemented".into(),
        Err(Error::Indeterminate) => "err Indeterminate".into(),
        Err(Error::Undefined(_)) => "err Undefined".into(),
    }
}
fn opt(r: Option<BigInt>) -> String { match r { Some(x) => format!("some {}", hex(&x)), None => "none".into() } }
fn call(w: &[&str]) -> String {
    let dec = |s: &str| u64::from_str_radix(s, 16).unwrap();
    match w[0] {
        "power_iu" => res(power_iu(&int(w[1]), &nat(w[2]))),
        "extended_gcd2" => { let (g, v) = extended_gcd2(&int(w[1]), &int(w[2])); format!("{} {}", hex(&g), v.iter().map(hex).collect::<Vec<_>>().join(" ")) }
        "modulo_inverse" => opt(modulo_inverse(&int(w[1]), &int(w[2]))),
        "modulo_division" => opt(modulo_division(&int(w[1]), &int(w[2]), &int(w[3]))),
        "is_coprime" => format!("{}", is_coprime(int(w[1]), int(w[2]))),
        "chinese_remainder" => opt(chinese_remainder(&list(w[1]), &list(w[2]))),
        "factorial_fold_u" => nhex(&factorial_fold_u(dec(w[1]) as usize)),
        "factorial_i" => res(factorial_i(&int(w[1]))),
        "fibonacci_fold_u" => nhex(&fibonacci_fold_u(dec(w[1]) as usize)),
        "fibonacci_fast_u" => nhex(&fibonacci_fast_u(dec(w[1]) as usize)),
        "fibonacci_i" => res(fibonacci_i(&int(w[1]))),
        "prime_sum_u64" => format!("{:x}", prime_sum_u64(dec(w[1]))),
        "prime_sum_i" => res(prime_sum_i(&int(w[1]))),
        "prime_count_i" => res(prime_count_i(&int(w[1]))),
        _ => "bad-command".into(),
    }
}
fn main() {
    std::panic::set_hook(Box::new(|_| ()));
    let run = || {
        let inp = std::io::stdin(); let out = std::io::stdout();
        for l in inp.lock().lines() {
            let l = l.unwrap(); let w: Vec<&str> = l.split(' ').collect();
            let r = match catch_unwind(AssertUnwindSafe(|| call(&w))) {
                Ok(r) => r,
                Err(e) => format!("panic {}", e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default().replace('\n', " ")),
            };
            let mut o = out.lock(); writeln!(o, "{}", r).unwrap(); o.flush().unwrap();
        }
    };
    std::thread::Builder::new().stack_size(256 << 20).spawn(run).unwrap().join().unwrap();
}
