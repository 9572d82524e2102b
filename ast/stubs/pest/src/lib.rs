//! Stand-in for the part of pest 2.1.3 that the generated parser and sm_ast use (pest itself is not in the sandbox).
use std::{fmt::Debug, hash::Hash, ops::Range, rc::Rc};
pub mod unicode {
    #![allow(non_snake_case)]
    pub fn WHITE_SPACE(c: char) -> bool { c.is_whitespace() }
    pub fn XID_START(c: char) -> bool { c.is_alphabetic() }
    pub fn XID_CONTINUE(c: char) -> bool { c.is_alphanumeric() || c == '_' }
}
pub trait RuleType: Copy + Debug + Eq + Hash + Ord {}
impl<T: Copy + Debug + Eq + Hash + Ord> RuleType for T {}
pub type ParseResult<S> = Result<S, S>;
#[derive(Clone, Copy, Debug, Eq, PartialEq)]
pub enum Atomicity { Atomic, CompoundAtomic, NonAtomic }
#[derive(Clone, Copy, Debug, Eq, PartialEq)]
enum Lookahead { Positive, Negative, None }
#[derive(Clone, Debug)]
enum Token<R> { Start { end: usize, pos: usize }, End { start: usize, rule: R, pos: usize } }
#[derive(Clone, Debug)]
pub struct Position<'i> { input: &'i str, pos: usize }
impl<'i> Position<'i> {
    pub fn pos(&self) -> usize { self.pos }
    pub fn line_col(&self) -> (usize, usize) {
        let before = &self.input[..self.pos];
        let line = before.matches('\n').count() + 1;
        let col = before.rsplit('\n').next().unwrap().chars().count() + 1;
        (line, col)
    }
}
#[derive(Clone, Debug)]
pub struct Span<'i> { input: &'i str, start: usize, end: usize }
impl<'i> Span<'i> {
    pub fn start_pos(&self) -> Position<'i> { Position { input: self.input, pos: self.start } }
    pub fn end_pos(&self) -> Position<'i> { Position { input: self.input, pos: self.end } }
    pub fn as_str(&self) -> &'i str { &self.input[self.start..self.end] }
    pub fn start(&self) -> usize { self.start }
    pub fn end(&self) -> usize { self.end }
}
#[derive(Debug)]
pub struct ParserState<'i, R: RuleType> {
    input: &'i str,
    pos: usize,
    queue: Vec<Token<R>>,
    lookahead: Lookahead,
    atomicity: Atomicity,
    stack: Vec<Range<usize>>,
    saved: Vec<Vec<Range<usize>>>,
    furthest: usize,
}
pub fn state<'i, R: RuleType, F>(input: &'i str, f: F) -> Result<iterators::Pairs<'i, R>, error::Error<R>>
where F: FnOnce(Box<ParserState<'i, R>>) -> ParseResult<Box<ParserState<'i, R>>> {
    let s = ParserState { input, pos: 0, queue: vec![], lookahead: Lookahead::None, atomicity: Atomicity::NonAtomic, stack: vec![], saved: vec![], furthest: 0 };
    match f(Box::new(s)) {
        Ok(s) => { let n = s.queue.len(); Ok(iterators::pairs(Rc::new(s.queue), input, 0, n)) }
        Err(s) => Err(error::Error { pos: s.furthest, _r: std::marker::PhantomData }),
    }
}
type B<'i, R> = Box<ParserState<'i, R>>;
impl<'i, R: RuleType> ParserState<'i, R> {
    pub fn atomicity(&self) -> Atomicity { self.atomicity }
    pub fn rule<F: FnOnce(Box<Self>) -> ParseResult<Box<Self>>>(mut self: Box<Self>, rule: R, f: F) -> ParseResult<B<'i, R>> {
        let (pos, index) = (self.pos, self.queue.len());
        let emit = self.lookahead == Lookahead::None && self.atomicity != Atomicity::Atomic;
        if emit { self.queue.push(Token::Start { end: 0, pos }); }
        match f(self) {
            Ok(mut s) => {
                if emit {
                    let n = s.queue.len();
                    if let Token::Start { end, .. } = &mut s.queue[index] { *end = n; }
                    let p = s.pos;
                    s.queue.push(Token::End { start: index, rule, pos: p });
                }
                Ok(s)
            }
            Err(mut s) => { if emit { s.queue.truncate(index); } Err(s) }
        }
    }
    pub fn sequence<F: FnOnce(Box<Self>) -> ParseResult<Box<Self>>>(self: Box<Self>, f: F) -> ParseResult<B<'i, R>> {
        let (n, pos) = (self.queue.len(), self.pos);
        match f(self) { Ok(s) => Ok(s), Err(mut s) => { s.pos = pos; s.queue.truncate(n); Err(s) } }
    }
    pub fn repeat<F: FnMut(Box<Self>) -> ParseResult<Box<Self>>>(self: Box<Self>, mut f: F) -> ParseResult<B<'i, R>> {
        let mut r = f(self);
        loop { match r { Ok(s) => r = f(s), Err(s) => return Ok(s) } }
    }
    pub fn optional<F: FnOnce(Box<Self>) -> ParseResult<Box<Self>>>(self: Box<Self>, f: F) -> ParseResult<B<'i, R>> {
        match f(self) { Ok(s) | Err(s) => Ok(s) }
    }
    pub fn lookahead<F: FnOnce(Box<Self>) -> ParseResult<Box<Self>>>(mut self: Box<Self>, positive: bool, f: F) -> ParseResult<B<'i, R>> {
        let old = self.lookahead;
        self.lookahead = match (positive, old) { (true, Lookahead::Negative) | (false, Lookahead::None) | (false, Lookahead::Positive) => Lookahead::Negative, _ => Lookahead::Positive };
        let pos = self.pos;
        let st = self.stack.clone();
        let back = |mut s: Box<Self>| { s.pos = pos; s.lookahead = old; s.stack = st; s };
        match (f(self), positive) {
            (Ok(s), true) | (Err(s), false) => Ok(back(s)),
            (Ok(s), false) | (Err(s), true) => Err(back(s)),
        }
    }
    pub fn atomic<F: FnOnce(Box<Self>) -> ParseResult<Box<Self>>>(mut self: Box<Self>, a: Atomicity, f: F) -> ParseResult<B<'i, R>> {
        let old = self.atomicity;
        self.atomicity = a;
        match f(self) { Ok(mut s) => { s.atomicity = old; Ok(s) } Err(mut s) => { s.atomicity = old; Err(s) } }
    }
    pub fn restore_on_err<F: FnOnce(Box<Self>) -> ParseResult<Box<Self>>>(mut self: Box<Self>, f: F) -> ParseResult<B<'i, R>> {
        let st = self.stack.clone();
        self.saved.push(st);
        match f(self) { Ok(mut s) => { s.saved.pop(); Ok(s) } Err(mut s) => { s.stack = s.saved.pop().unwrap(); Err(s) } }
    }
    fn advance(mut self: Box<Self>, n: Option<usize>) -> ParseResult<B<'i, R>> {
        match n { Some(n) => { self.pos += n; Ok(self) } None => { self.furthest = self.furthest.max(self.pos); Err(self) } }
    }
    pub fn match_string(self: Box<Self>, t: &str) -> ParseResult<B<'i, R>> { let n = if self.input[self.pos..].starts_with(t) { Some(t.len()) } else { None }; self.advance(n) }
    pub fn match_insensitive(self: Box<Self>, t: &str) -> ParseResult<B<'i, R>> {
        let n = match self.input.get(self.pos..self.pos + t.len()) { Some(u) if u.eq_ignore_ascii_case(t) => Some(t.len()), _ => None };
        self.advance(n)
    }
    pub fn match_range(self: Box<Self>, r: Range<char>) -> ParseResult<B<'i, R>> { self.match_char_by(|c| r.start <= c && c <= r.end) }
    pub fn match_char_by<F: FnOnce(char) -> bool>(self: Box<Self>, f: F) -> ParseResult<B<'i, R>> {
        let n = match self.input[self.pos..].chars().next() { Some(c) if f(c) => Some(c.len_utf8()), _ => None };
        self.advance(n)
    }
    pub fn skip(self: Box<Self>, n: usize) -> ParseResult<B<'i, R>> {
        let rest = &self.input[self.pos..];
        let k = if rest.chars().count() >= n { Some(rest.chars().take(n).map(char::len_utf8).sum()) } else { None };
        self.advance(k)
    }
    pub fn start_of_input(self: Box<Self>) -> ParseResult<B<'i, R>> { let n = if self.pos == 0 { Some(0) } else { None }; self.advance(n) }
    pub fn end_of_input(self: Box<Self>) -> ParseResult<B<'i, R>> { let n = if self.pos == self.input.len() { Some(0) } else { None }; self.advance(n) }
    pub fn stack_push<F: FnOnce(Box<Self>) -> ParseResult<Box<Self>>>(self: Box<Self>, f: F) -> ParseResult<B<'i, R>> {
        let start = self.pos;
        match f(self) { Ok(mut s) => { let end = s.pos; s.stack.push(start..end); Ok(s) } Err(s) => Err(s) }
    }
    pub fn stack_peek(self: Box<Self>) -> ParseResult<B<'i, R>> { let r = self.stack.last().expect("peek was called on empty stack").clone(); let t = &self.input[r]; self.match_string(t) }
    pub fn stack_pop(mut self: Box<Self>) -> ParseResult<B<'i, R>> { let r = self.stack.pop().expect("pop was called on empty stack"); let t = &self.input[r]; self.match_string(t) }
}
pub trait Parser<R: RuleType> {
    fn parse<'i>(rule: R, input: &'i str) -> Result<iterators::Pairs<'i, R>, error::Error<R>>;
}
pub mod error {
    #[derive(Clone, Debug, PartialEq, Eq)]
    pub struct Error<R> { pub(crate) pos: usize, pub(crate) _r: std::marker::PhantomData<R> }
    impl<R> std::fmt::Display for Error<R> {
        fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "no rule matches at {}", self.pos) }
    }
}
pub mod iterators {
    use super::{RuleType, Span, Token};
    use std::rc::Rc;
    #[derive(Clone, Debug)]
    pub struct Pair<'i, R> { q: Rc<Vec<Token<R>>>, input: &'i str, start: usize }
    #[derive(Clone, Debug)]
    pub struct Pairs<'i, R> { q: Rc<Vec<Token<R>>>, input: &'i str, start: usize, end: usize }
    pub(crate) fn pairs<'i, R>(q: Rc<Vec<Token<R>>>, input: &'i str, start: usize, end: usize) -> Pairs<'i, R> { Pairs { q, input, start, end } }
    impl<'i, R: RuleType> Pair<'i, R> {
        fn end(&self) -> usize { match self.q[self.start] { Token::Start { end, .. } => end, _ => unreachable!() } }
        pub fn as_rule(&self) -> R { match self.q[self.end()] { Token::End { rule, .. } => rule, _ => unreachable!() } }
        pub fn as_span(&self) -> Span<'i> {
            let a = match self.q[self.start] { Token::Start { pos, .. } => pos, _ => unreachable!() };
            let b = match self.q[self.end()] { Token::End { pos, .. } => pos, _ => unreachable!() };
            Span { input: self.input, start: a, end: b }
        }
        pub fn as_str(&self) -> &'i str { let s = self.as_span(); &self.input[s.start..s.end] }
        pub fn into_inner(self) -> Pairs<'i, R> { let e = self.end(); Pairs { q: self.q, input: self.input, start: self.start + 1, end: e } }
    }
    impl<'i, R: RuleType> Iterator for Pairs<'i, R> {
        type Item = Pair<'i, R>;
        fn next(&mut self) -> Option<Pair<'i, R>> {
            if self.start >= self.end { return None; }
            let p = Pair { q: self.q.clone(), input: self.input, start: self.start };
            self.start = p.end() + 1;
            Some(p)
        }
    }
}
pub mod prec_climber {
    use super::{iterators::Pair, RuleType};
    use std::iter::Peekable;
    #[derive(Clone, Copy, Debug, Eq, PartialEq)]
    pub enum Assoc { Left, Right }
    #[derive(Debug)]
    pub struct Operator<R> { pub rule: R, pub assoc: Assoc }
    #[derive(Debug)]
    pub struct PrecClimber<R: 'static> { ops: &'static [(R, u32, Assoc)] }
    impl<R: RuleType> PrecClimber<R> {
        pub const fn new_const(ops: &'static [(R, u32, Assoc)]) -> PrecClimber<R> { PrecClimber { ops } }
        fn get(&self, r: &R) -> Option<(u32, Assoc)> { self.ops.iter().find(|o| o.0 == *r).map(|o| (o.1, o.2)) }
        pub fn climb<'i, P, F, G, T>(&self, mut pairs: P, mut primary: F, mut infix: G) -> T
        where P: Iterator<Item = Pair<'i, R>>, F: FnMut(Pair<'i, R>) -> T, G: FnMut(T, Pair<'i, R>, T) -> T, R: 'i {
            let lhs = primary(pairs.next().expect("precedence climbing requires a non-empty Pairs"));
            self.rec(lhs, 0, &mut pairs.peekable(), &mut primary, &mut infix)
        }
        fn rec<'i, P, F, G, T>(&self, mut lhs: T, min: u32, pairs: &mut Peekable<P>, primary: &mut F, infix: &mut G) -> T
        where P: Iterator<Item = Pair<'i, R>>, F: FnMut(Pair<'i, R>) -> T, G: FnMut(T, Pair<'i, R>, T) -> T, R: 'i {
            while let Some(p) = pairs.peek() {
                let prec = match self.get(&p.as_rule()) { Some((q, _)) if q >= min => q, _ => break };
                let op = pairs.next().unwrap();
                let mut rhs = primary(pairs.next().expect("infix operator must be followed by a primary expression"));
                while let Some(p) = pairs.peek() {
                    match self.get(&p.as_rule()) {
                        Some((q, a)) if q > prec || a == Assoc::Right && q == prec => rhs = self.rec(rhs, q, pairs, primary, infix),
                        _ => break,
                    }
                }
                lhs = infix(lhs, op, rhs);
            }
            lhs
        }
    }
}
