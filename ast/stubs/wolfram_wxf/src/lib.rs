//! Stand-in for the part of wolfram_wxf 0.4.1 that sm_ast uses.
use num::BigInt;
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum WolframValue {
    Skip,
    BigInteger(BigInt),
    BigDecimal(Box<str>),
    Symbol(Box<str>),
    String(Box<str>),
    Function(Box<WolframValue>, Vec<WolframValue>),
}
impl WolframValue {
    pub fn symbol(s: impl AsRef<str>) -> Self { WolframValue::Symbol(Box::from(s.as_ref())) }
    pub fn function<T: ToWolfram>(head: &str, args: Vec<T>) -> Self { WolframValue::Function(Box::new(Self::symbol(head)), args.iter().map(|a| a.to_wolfram()).collect()) }
}
pub trait ToWolfram {
    fn to_wolfram(&self) -> WolframValue;
    fn to_wolfram_bytes(&self) -> Vec<u8> { format!("{:?}", self.to_wolfram()).into_bytes() }
}
impl ToWolfram for WolframValue { fn to_wolfram(&self) -> WolframValue { self.clone() } }
