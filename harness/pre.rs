// Support code of the conformance harness: observation of values, side-effect log, error types.
#![allow(dead_code)]
pub use core::marker::PhantomData;
pub use nom::number::Endianness;
use nom::error::{ErrorKind, FromExternalError, ParseError};
use nom::{Err, IResult, Needed};
use std::cell::{Cell, RefCell};
use std::fmt::Write as _;
use std::io::Write as _;

pub const HUGE: i64 = 16777216;

thread_local! {
    static LOG: RefCell<Vec<Vec<i64>>> = RefCell::new(Vec::new());
    static BASE: Cell<(usize, usize)> = Cell::new((0, 0));
}

// ---------------------------------------------------------------- values
pub trait Obs {
    fn obs(&self, o: &mut Vec<i64>);
}
pub trait FromFlat: Sized {
    fn from_flat(v: &[u8]) -> Self;
}
macro_rules! obs_num {
    ($($t:ty),*) => {$(
        impl Obs for $t { fn obs(&self, o: &mut Vec<i64>) { o.extend(self.to_be_bytes().iter().map(|b| *b as i64)); } }
        impl FromFlat for $t { fn from_flat(v: &[u8]) -> Self {
            let mut b = [0u8; core::mem::size_of::<$t>()]; b.copy_from_slice(v); <$t>::from_be_bytes(b) } }
    )*};
}
obs_num!(u8, u16, u32, u64, u128, i8, i16, i32, i64, i128, usize, isize);
impl Obs for f32 { fn obs(&self, o: &mut Vec<i64>) { self.to_bits().obs(o) } }
impl Obs for f64 { fn obs(&self, o: &mut Vec<i64>) { self.to_bits().obs(o) } }
impl Obs for bool { fn obs(&self, o: &mut Vec<i64>) { o.push(*self as i64) } }
impl Obs for char { fn obs(&self, o: &mut Vec<i64>) { (*self as u32).obs(o) } }
impl Obs for Endianness { fn obs(&self, o: &mut Vec<i64>) { o.push(if *self == Endianness::Big { 0 } else { 1 }) } }
impl FromFlat for bool { fn from_flat(v: &[u8]) -> Self { v[0] != 0 } }
impl FromFlat for char { fn from_flat(v: &[u8]) -> Self { char::from_u32(u32::from_flat(v)).unwrap() } }
impl FromFlat for Endianness { fn from_flat(v: &[u8]) -> Self { if v[0] == 0 { Endianness::Big } else { Endianness::Little } } }
impl<T: FromFlat> FromFlat for Option<T> { fn from_flat(v: &[u8]) -> Self { if v[0] == 0 { None } else { Some(T::from_flat(&v[1..])) } } }
impl<A: FromFlat, B: FromFlat> FromFlat for (A, B) {
    fn from_flat(v: &[u8]) -> Self { let k = core::mem::size_of::<A>(); (A::from_flat(&v[..k]), B::from_flat(&v[k..])) }
}
impl<T: Obs> Obs for Option<T> {
    fn obs(&self, o: &mut Vec<i64>) { match self { None => o.push(0), Some(x) => { o.push(1); x.obs(o) } } }
}
impl<T: Obs> Obs for Vec<T> {
    fn obs(&self, o: &mut Vec<i64>) { o.push(self.len() as i64); for x in self { x.obs(o) } }
}
impl<T: Obs, const N: usize> Obs for [T; N] {
    fn obs(&self, o: &mut Vec<i64>) { for x in self { x.obs(o) } }
}
impl<A: Obs, B: Obs> Obs for (A, B) {
    fn obs(&self, o: &mut Vec<i64>) { self.0.obs(o); self.1.obs(o) }
}
impl Obs for () { fn obs(&self, _: &mut Vec<i64>) {} }
impl<T: ?Sized> Obs for PhantomData<T> { fn obs(&self, _: &mut Vec<i64>) {} }
impl<T: Obs + ?Sized> Obs for Box<T> { fn obs(&self, o: &mut Vec<i64>) { (**self).obs(o) } }
impl Obs for String {
    fn obs(&self, o: &mut Vec<i64>) { o.push(self.len() as i64); o.extend(self.bytes().map(|b| b as i64)) }
}
impl Obs for &Vec<u8> { fn obs(&self, o: &mut Vec<i64>) { (**self).obs(o) } }
impl<T: Obs> Obs for &mut T { fn obs(&self, o: &mut Vec<i64>) { (**self).obs(o) } }
impl FromFlat for Vec<u8> { fn from_flat(v: &[u8]) -> Self { v[1..].to_vec() } }
impl FromFlat for String { fn from_flat(v: &[u8]) -> Self { String::from_utf8(v[1..].to_vec()).unwrap() } }
impl<'a> Obs for &'a [u8] {
    fn obs(&self, o: &mut Vec<i64>) {
        o.push(offset(self)); o.push(self.len() as i64); o.extend(self.iter().map(|b| *b as i64))
    }
}
impl<'a, L> Obs for nom_derive::LengthData<L, &'a [u8]> { fn obs(&self, o: &mut Vec<i64>) { self.data.obs(o) } }

/// offset of a sub-slice in the caller's buffer; -1 if it is not inside (0 for detached empty slices)
pub fn offset(s: &[u8]) -> i64 {
    let (b, l) = BASE.with(|x| x.get());
    let p = s.as_ptr() as usize;
    if p >= b && p + s.len() <= b + l { (p - b) as i64 } else if s.is_empty() { 0 } else { -1 }
}

// ---------------------------------------------------------------- side effects
pub fn lg0(id: i64) { LOG.with(|l| l.borrow_mut().push(vec![id])) }
pub fn lgr(id: i64, i: &[u8]) { LOG.with(|l| l.borrow_mut().push(vec![id, i.len() as i64])) }
pub fn lgv<T: Obs>(id: i64, x: &T) {
    let mut v = vec![id]; x.obs(&mut v); LOG.with(|l| l.borrow_mut().push(v))
}
pub fn lgb(id: i64, b: bool) -> bool { LOG.with(|l| l.borrow_mut().push(vec![id, b as i64])); b }
pub fn lge(id: i64, e: Endianness) -> Endianness { lg0(id); e }
pub fn lgp<'a, O, E: ParseError<&'a [u8]>, F: nom::Parser<&'a [u8], Output = O, Error = E>>(
    id: i64, mut f: F,
) -> impl FnMut(&'a [u8]) -> IResult<&'a [u8], O, E> {
    move |i| { lgr(id, i); f.parse(i) }
}

// ---------------------------------------------------------------- in expressions
pub struct Sl<T> { pub a: T }
impl<T> Sl<T> { pub fn mk(a: T) -> Self { Sl { a } } pub fn get(self) -> T { self.a } }
pub fn pick2<A, B>(a: A, _: B) -> A { a }
pub fn same<A, B>(a: A, _: B) -> A { a }
#[macro_export]
macro_rules! ident { ($($t:tt)*) => { $($t)* } }

// ---------------------------------------------------------------- an input type of the user
#[derive(Clone, PartialEq, Debug)]
pub struct Cin<'a>(pub &'a [u8]);
impl<'a> nom::Input for Cin<'a> {
    type Item = u8;
    type Iter = core::iter::Copied<core::slice::Iter<'a, u8>>;
    type IterIndices = core::iter::Enumerate<Self::Iter>;
    fn input_len(&self) -> usize { self.0.len() }
    fn take(&self, n: usize) -> Self { Cin(&self.0[..n]) }
    fn take_from(&self, n: usize) -> Self { Cin(&self.0[n..]) }
    fn take_split(&self, n: usize) -> (Self, Self) { (Cin(&self.0[n..]), Cin(&self.0[..n])) }
    fn position<P: Fn(u8) -> bool>(&self, p: P) -> Option<usize> { self.0.iter().position(|b| p(*b)) }
    fn iter_elements(&self) -> Self::Iter { self.0.iter().copied() }
    fn iter_indices(&self) -> Self::IterIndices { self.iter_elements().enumerate() }
    fn slice_index(&self, n: usize) -> Result<usize, Needed> {
        if self.0.len() >= n { Ok(n) } else { Err(Needed::new(n - self.0.len())) }
    }
}
impl<'a> nom_derive::InputSlice for Cin<'a> {}
impl<'a, L> Obs for nom_derive::LengthData<L, Cin<'a>> { fn obs(&self, o: &mut Vec<i64>) { self.data.0.obs(o) } }
pub fn cin<'a, T>(r: IResult<Cin<'a>, T, nom::error::Error<Cin<'a>>>) -> IResult<&'a [u8], T, nom::error::Error<&'a [u8]>> {
    match r {
        Ok((i, v)) => Ok((i.0, v)),
        Err(e) => Err(e.map(|e| nom::error::Error { input: e.input.0, code: e.code })),
    }
}

// ---------------------------------------------------------------- user parsers
pub fn pf_err<'a, O, E: ParseError<&'a [u8]>>(i: &'a [u8]) -> IResult<&'a [u8], O, E> {
    Err(Err::Error(E::from_error_kind(i, ErrorKind::Digit)))
}
pub fn pf_fail<'a, O, E: ParseError<&'a [u8]>>(i: &'a [u8]) -> IResult<&'a [u8], O, E> {
    Err(Err::Failure(E::from_error_kind(i, ErrorKind::Digit)))
}
/// types providing `parse` only
#[derive(Clone, Default)]
pub struct CusLe16(pub u16);
impl<'a, E: ParseError<&'a [u8]>> nom_derive::Parse<&'a [u8], E> for CusLe16 {
    fn parse(i: &'a [u8]) -> IResult<&'a [u8], Self, E> {
        nom::number::streaming::le_u16(i).map(|(r, x)| (r, CusLe16(x)))
    }
}
#[derive(Clone, Default)]
pub struct CusBe32(pub u32);
impl<'a, E: ParseError<&'a [u8]>> nom_derive::Parse<&'a [u8], E> for CusBe32 {
    fn parse(i: &'a [u8]) -> IResult<&'a [u8], Self, E> {
        nom::number::streaming::be_u32(i).map(|(r, x)| (r, CusBe32(x)))
    }
}
impl Obs for CusLe16 { fn obs(&self, o: &mut Vec<i64>) { self.0.obs(o) } }
impl Obs for CusBe32 { fn obs(&self, o: &mut Vec<i64>) { self.0.obs(o) } }
/// a type whose three entry points differ: the first number tells which one was called
#[derive(Clone, Default)]
pub struct Tri(pub u8, pub u16);
impl<'a, E: ParseError<&'a [u8]>> nom_derive::Parse<&'a [u8], E> for Tri {
    fn parse(i: &'a [u8]) -> IResult<&'a [u8], Self, E> {
        nom::number::streaming::be_u16(i).map(|(r, x)| (r, Tri(0, x)))
    }
    fn parse_be(i: &'a [u8]) -> IResult<&'a [u8], Self, E> {
        nom::number::streaming::be_u16(i).map(|(r, x)| (r, Tri(1, x)))
    }
    fn parse_le(i: &'a [u8]) -> IResult<&'a [u8], Self, E> {
        nom::number::streaming::le_u16(i).map(|(r, x)| (r, Tri(2, x)))
    }
}
impl Obs for Tri { fn obs(&self, o: &mut Vec<i64>) { o.push(self.0 as i64); self.1.obs(o) } }
/// a length whose entry points differ
pub struct Tl(pub usize);
impl nom::ToUsize for Tl { fn to_usize(&self) -> usize { self.0 } }
impl<I: nom_derive::InputSlice, E: ParseError<I>> nom_derive::Parse<I, E> for Tl {
    fn parse(i: I) -> IResult<I, Self, E> { nom::number::streaming::be_u8(i).map(|(r, x)| (r, Tl(x as usize))) }
    fn parse_be(i: I) -> IResult<I, Self, E> { nom::number::streaming::be_u16(i).map(|(r, x)| (r, Tl(x as usize))) }
    fn parse_le(i: I) -> IResult<I, Self, E> { nom::number::streaming::le_u16(i).map(|(r, x)| (r, Tl(x as usize))) }
}
/// a Default that is not all zeros
#[derive(Clone)]
pub struct Dfl(pub u8, pub u8);
impl Default for Dfl { fn default() -> Self { Dfl(1, 7) } }
impl Obs for Dfl { fn obs(&self, o: &mut Vec<i64>) { o.push(self.0 as i64); o.push(self.1 as i64) } }
/// target of Into
#[derive(Clone, Default)]
pub struct W8(pub u8);
impl From<u8> for W8 { fn from(x: u8) -> Self { W8(x) } }
impl Obs for W8 { fn obs(&self, o: &mut Vec<i64>) { self.0.obs(o) } }

// ---------------------------------------------------------------- errors
/// keeps everything it is given, innermost first
#[derive(Debug, PartialEq)]
pub struct Tr(pub Vec<(ErrorKind, i64)>);
impl<'a> ParseError<&'a [u8]> for Tr {
    fn from_error_kind(i: &'a [u8], k: ErrorKind) -> Self { Tr(vec![(k, offset(i))]) }
    fn append(i: &'a [u8], k: ErrorKind, mut o: Self) -> Self { o.0.push((k, offset(i))); o }
}
impl<'a, X> FromExternalError<&'a [u8], X> for Tr {
    fn from_external_error(i: &'a [u8], k: ErrorKind, _: X) -> Self { Tr(vec![(k, offset(i))]) }
}
pub trait ErrObs { fn chain(&self) -> Vec<(ErrorKind, i64)>; }
impl ErrObs for Tr { fn chain(&self) -> Vec<(ErrorKind, i64)> { self.0.clone() } }
impl<'a> ErrObs for nom::error::Error<&'a [u8]> {
    fn chain(&self) -> Vec<(ErrorKind, i64)> { vec![(self.code, offset(self.input))] }
}
impl<'a> ErrObs for (&'a [u8], ErrorKind) { fn chain(&self) -> Vec<(ErrorKind, i64)> { vec![(self.1, offset(self.0))] } }
impl ErrObs for () { fn chain(&self) -> Vec<(ErrorKind, i64)> { vec![] } }
/// the same, of a type that cannot be formatted
pub struct Tn(pub Tr);
impl<'a> ParseError<&'a [u8]> for Tn {
    fn from_error_kind(i: &'a [u8], k: ErrorKind) -> Self { Tn(Tr::from_error_kind(i, k)) }
    fn append(i: &'a [u8], k: ErrorKind, o: Self) -> Self { Tn(Tr::append(i, k, o.0)) }
}
impl<'a, X> FromExternalError<&'a [u8], X> for Tn {
    fn from_external_error(i: &'a [u8], k: ErrorKind, _: X) -> Self { Tn(Tr(vec![(k, offset(i))])) }
}
impl ErrObs for Tn { fn chain(&self) -> Vec<(ErrorKind, i64)> { self.0.chain() } }
/// the same, of a type that takes no errors of others
#[derive(Debug)]
pub struct Tq(pub Tr);
impl<'a> ParseError<&'a [u8]> for Tq {
    fn from_error_kind(i: &'a [u8], k: ErrorKind) -> Self { Tq(Tr::from_error_kind(i, k)) }
    fn append(i: &'a [u8], k: ErrorKind, o: Self) -> Self { Tq(Tr::append(i, k, o.0)) }
}
impl ErrObs for Tq { fn chain(&self) -> Vec<(ErrorKind, i64)> { self.0.chain() } }
pub fn trq<I, O>(r: IResult<I, O, Tq>) -> IResult<I, O, Tq> { r }
pub fn trn<I, O>(r: IResult<I, O, Tn>) -> IResult<I, O, Tn> { r }
pub fn trp<'a, O>(r: IResult<&'a [u8], O, (&'a [u8], ErrorKind)>) -> IResult<&'a [u8], O, (&'a [u8], ErrorKind)> { r }
pub fn tru<'a, O>(r: IResult<&'a [u8], O, ()>) -> IResult<&'a [u8], O, ()> { r }
/// pin the error type of a call that is generic in it
pub fn tr<I, O>(r: IResult<I, O, Tr>) -> IResult<I, O, Tr> { r }

// ---------------------------------------------------------------- outcome of one execution
pub struct Out { r: &'static str, pos: i64, n: i64, v: Vec<i64>, ch: Vec<(ErrorKind, i64)> }

pub fn fin<T: Obs, E: ErrObs>(r: IResult<&[u8], T, E>) -> Out {
    let mut out = Out { r: "ok", pos: 0, n: 0, v: vec![], ch: vec![] };
    match r {
        Ok((rem, v)) => {
            // the remainder must be a suffix of the buffer that was given
            let (b, l) = BASE.with(|x| x.get());
            let p = rem.as_ptr() as usize;
            if p >= b && p + rem.len() == b + l { out.pos = (p - b) as i64 } else { out.r = "rem" }
            v.obs(&mut out.v);
        }
        Err(Err::Incomplete(Needed::Unknown)) => out.r = "inc",
        Err(Err::Incomplete(Needed::Size(n))) => {
            out.r = "inc";
            out.n = if n.get() as u64 >= (HUGE - 262144) as u64 { HUGE } else { n.get() as i64 };
        }
        Err(Err::Error(e)) => { out.r = "err"; out.ch = e.chain() }
        Err(Err::Failure(e)) => { out.r = "fail"; out.ch = e.chain() }
    }
    out
}

fn ints(s: &mut String, v: &[i64]) {
    s.push('[');
    for (k, x) in v.iter().enumerate() { if k > 0 { s.push(',') } let _ = write!(s, "{}", x); }
    s.push(']');
}

pub type RunFn = fn(u8, &[Vec<u8>], &[u8]) -> Out;

fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|k| u8::from_str_radix(&s[2 * k..2 * k + 2], 16).unwrap()).collect()
}

/// argv: cases file, output file, first case to run
pub fn main_loop(table: &[(usize, RunFn)]) {
    let a: Vec<String> = std::env::args().collect();
    let text = std::fs::read_to_string(&a[1]).unwrap();
    let mut outf = std::fs::OpenOptions::new().create(true).append(true).open(&a[2]).unwrap();
    let from: usize = a[3].parse().unwrap();
    std::panic::set_hook(Box::new(|_| {}));
    let map: std::collections::HashMap<usize, RunFn> = table.iter().cloned().collect();
    for line in text.lines() {
        let f: Vec<&str> = line.split(' ').collect();
        let cid: usize = f[0].parse().unwrap();
        let prog: usize = f[1].parse().unwrap();
        if cid < from { continue }
        let run = match map.get(&prog) { Some(r) => *r, None => continue };
        let entry: u8 = f[2].parse().unwrap();
        let args: Vec<Vec<u8>> = if f[3] == "-" { vec![] } else { f[3].split(',').map(unhex).collect() };
        let bytes = unhex(if f[4] == "-" { "" } else { f[4] });
        // in the middle of a larger buffer whose other bytes would be visible if read, at any address:
        // nothing may depend on where the caller's buffer lies in memory
        let at = 32 + (cid * 7 + 1) % 16;
        let mut buf = vec![0xA5u8; bytes.len() + 96];
        buf[at..at + bytes.len()].copy_from_slice(&bytes);
        let input = &buf[at..at + bytes.len()];
        BASE.with(|b| b.set((input.as_ptr() as usize, input.len())));
        LOG.with(|l| l.borrow_mut().clear());
        println!("\u{1}CASE {}", cid);
        let _ = outf.write_all(format!("{{\"start\":{}}}\n", cid).as_bytes());
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| run(entry, &args, input)));
        let o = r.unwrap_or(Out { r: "panic", pos: 0, n: 0, v: vec![], ch: vec![] });
        let mut s = String::new();
        let _ = write!(s, "{{\"cid\":{},\"r\":\"{}\",\"pos\":{},\"n\":{},\"v\":", cid, o.r, o.pos, o.n);
        ints(&mut s, &o.v);
        s.push_str(",\"ch\":[");
        for (k, (kind, p)) in o.ch.iter().enumerate() {
            if k > 0 { s.push(',') }
            let _ = write!(s, "[\"{:?}\",{}]", kind, p);
        }
        s.push_str("],\"log\":[");
        LOG.with(|l| for (k, ev) in l.borrow().iter().enumerate() {
            if k > 0 { s.push(',') }
            ints(&mut s, ev);
        });
        s.push_str("]}\n");
        let _ = outf.write_all(s.as_bytes());
    }
    println!("\u{1}END");
}
