//! Types and drivers used by the modules that the checks render from
//! configurations of the TLA+ specification (see ../../DESIGN.md).
#![allow(clippy::all)]
pub extern crate core;
pub extern crate std;

pub use self::core::option;
use std::cell::RefCell;
use std::collections::HashMap;
use std::io::{BufRead, Write};

// ------------------------------------------------------------------ logging
#[derive(Default)]
struct Env {
    log: Vec<String>,
    clones: Vec<usize>, // for every clone, how many user evaluations preceded it
    verdict: String,
    fails: Vec<String>,
}
thread_local!(static ENV: RefCell<Env> = RefCell::new(Env::default()));
fn log(s: String) {
    ENV.with(|e| e.borrow_mut().log.push(s))
}
fn cloned() {
    ENV.with(|e| {
        let mut e = e.borrow_mut();
        let n = e.log.len();
        e.clones.push(n)
    })
}
pub fn start() {
    ENV.with(|e| {
        let mut e = e.borrow_mut();
        e.log.clear();
        e.clones.clear();
    })
}
fn fails(id: &str) -> bool {
    ENV.with(|e| e.borrow().fails.iter().any(|f| f == id))
}

// -------------------------------------------------------------------- terms
/// The value term of the specification that a value stands for.
pub trait Show {
    fn show(&self) -> String;
}
/// Making values out of labels (`mk`) and out of terms (`parse`).
pub trait Mk: Show + Sized {
    fn mk(label: &str) -> Self;
    fn parse(term: &str) -> Self {
        Self::mk(term)
    }
}
pub struct Raw(pub String);
pub struct Tr(pub String);
#[derive(Debug, PartialEq)]
pub struct TrErr(pub String);

macro_rules! conversions {
    ($t:ty) => {
        impl From<Raw> for $t {
            fn from(r: Raw) -> Self {
                <$t as Mk>::mk(&format!("into({})", r.0))
            }
        }
        impl std::convert::TryFrom<Tr> for $t {
            type Error = TrErr;
            fn try_from(t: Tr) -> Result<Self, TrErr> {
                if t.0.starts_with('e') {
                    Err(TrErr(t.0))
                } else {
                    Ok(<$t as Mk>::mk(&format!("try({})", t.0)))
                }
            }
        }
        impl std::convert::TryFrom<Tr> for Option<$t> {
            type Error = TrErr;
            fn try_from(t: Tr) -> Result<Self, TrErr> {
                <$t as std::convert::TryFrom<Tr>>::try_from(t).map(Some)
            }
        }
    };
}
macro_rules! plain {
    ($t:ident) => {
        impl Show for $t {
            fn show(&self) -> String {
                self.0.clone()
            }
        }
        impl Mk for $t {
            fn mk(label: &str) -> Self {
                $t(label.to_string())
            }
        }
        conversions!($t);
    };
}
/// Clones visibly.
#[derive(Debug, PartialEq, Eq, Hash)]
pub struct V(String);
plain!(V);
impl Clone for V {
    fn clone(&self) -> V {
        cloned();
        V(self.0.clone())
    }
}
impl Default for V {
    fn default() -> V {
        V("V0".to_string())
    }
}
/// Not Clone.
#[derive(Debug, PartialEq, Eq, Hash)]
pub struct N(String);
plain!(N);
impl Default for N {
    fn default() -> N {
        N("N0".to_string())
    }
}
/// No Default.
#[derive(Debug, PartialEq, Eq, Hash)]
pub struct X(String);
plain!(X);
impl Clone for X {
    fn clone(&self) -> X {
        cloned();
        X(self.0.clone())
    }
}
fn leak(s: &str) -> &'static str {
    Box::leak(s.to_string().into_boxed_str())
}
/// Copy.
#[derive(Debug, PartialEq, Eq, Hash, Clone, Copy)]
pub struct C(&'static str);
impl Show for C {
    fn show(&self) -> String {
        self.0.to_string()
    }
}
impl Mk for C {
    fn mk(label: &str) -> Self {
        C(leak(label))
    }
}
conversions!(C);
impl Default for C {
    fn default() -> C {
        C("C0")
    }
}
/// With a const parameter.
#[derive(Debug, PartialEq, Eq, Hash, Clone, Copy)]
pub struct Arr<const M: usize>(&'static str);
impl<const M: usize> Show for Arr<M> {
    fn show(&self) -> String {
        self.0.to_string()
    }
}
impl<const M: usize> Mk for Arr<M> {
    fn mk(label: &str) -> Self {
        Arr(leak(label))
    }
}
impl<const M: usize> Default for Arr<M> {
    fn default() -> Self {
        Arr("A0")
    }
}
impl<const M: usize> From<Raw> for Arr<M> {
    fn from(r: Raw) -> Self {
        Arr(leak(&format!("into({})", r.0)))
    }
}
impl<const M: usize> std::convert::TryFrom<Tr> for Arr<M> {
    type Error = TrErr;
    fn try_from(t: Tr) -> Result<Self, TrErr> {
        if t.0.starts_with('e') {
            Err(TrErr(t.0))
        } else {
            Ok(Arr(leak(&format!("try({})", t.0))))
        }
    }
}
impl<'a> Show for &'a str {
    fn show(&self) -> String {
        self.to_string()
    }
}
impl<'a> Mk for &'a str {
    fn mk(label: &str) -> Self {
        leak(label)
    }
}
impl From<Raw> for &'static str {
    fn from(r: Raw) -> Self {
        leak(&format!("into({})", r.0))
    }
}
impl std::convert::TryFrom<Tr> for &'static str {
    type Error = TrErr;
    fn try_from(t: Tr) -> Result<Self, TrErr> {
        if t.0.starts_with('e') {
            Err(TrErr(t.0))
        } else {
            Ok(leak(&format!("try({})", t.0)))
        }
    }
}
impl Show for bool {
    fn show(&self) -> String {
        self.to_string()
    }
}
impl Mk for bool {
    fn mk(_: &str) -> Self {
        true
    }
    fn parse(term: &str) -> Self {
        term == "true"
    }
}
conversions!(bool);
impl Show for i32 {
    fn show(&self) -> String {
        self.to_string()
    }
}
impl Mk for i32 {
    fn mk(_: &str) -> Self {
        7
    }
    fn parse(term: &str) -> Self {
        term.parse().unwrap()
    }
}
conversions!(i32);
impl Show for String {
    fn show(&self) -> String {
        self.clone()
    }
}
impl Mk for String {
    fn mk(label: &str) -> Self {
        label.to_string()
    }
}
conversions!(String);
impl Show for () {
    fn show(&self) -> String {
        "()".to_string()
    }
}
impl Mk for () {
    fn mk(_: &str) -> Self {}
}
conversions!(());
impl Show for std::marker::PhantomData<V> {
    fn show(&self) -> String {
        "ph".to_string()
    }
}
impl Mk for std::marker::PhantomData<V> {
    fn mk(_: &str) -> Self {
        std::marker::PhantomData
    }
}
conversions!(std::marker::PhantomData<V>);
impl Show for char {
    fn show(&self) -> String {
        self.to_string()
    }
}
impl Mk for char {
    fn mk(_: &str) -> Self {
        'c'
    }
}
conversions!(char);
impl Show for (C, u8) {
    fn show(&self) -> String {
        self.0.show()
    }
}
impl Mk for (C, u8) {
    fn mk(label: &str) -> Self {
        (C::mk(label), 1)
    }
}
conversions!((C, u8));
impl Show for [C; 2] {
    fn show(&self) -> String {
        self[0].show()
    }
}
impl Mk for [C; 2] {
    fn mk(label: &str) -> Self {
        [C::mk(label), C::mk(label)]
    }
}
conversions!([C; 2]);
impl Show for Box<V> {
    fn show(&self) -> String {
        (**self).show()
    }
}
impl Mk for Box<V> {
    fn mk(label: &str) -> Self {
        Box::new(V::mk(label))
    }
}
conversions!(Box<V>);
impl Show for Vec<C> {
    fn show(&self) -> String {
        let mut s = "[".to_string();
        for i in self {
            s.push_str(i.0);
            s.push(';');
        }
        s
    }
}
impl Mk for Vec<C> {
    fn mk(label: &str) -> Self {
        vec![C::mk(label)]
    }
    fn parse(term: &str) -> Self {
        let mut v: Vec<C> = term[1..].split(';').map(C::mk).collect();
        v.pop();
        v
    }
}
conversions!(Vec<C>);
/// A collection of items, with a Default that is not empty.
#[derive(Debug, PartialEq, Eq, Hash)]
pub struct L(Vec<String>);
impl Show for L {
    fn show(&self) -> String {
        let mut s = "[".to_string();
        for i in &self.0 {
            s.push_str(i);
            s.push(';');
        }
        s
    }
}
impl Mk for L {
    fn mk(label: &str) -> Self {
        L(vec![label.to_string()])
    }
    fn parse(term: &str) -> Self {
        let mut v: Vec<String> = term[1..].split(';').map(str::to_string).collect();
        v.pop();
        L(v)
    }
}
impl Clone for L {
    fn clone(&self) -> L {
        cloned();
        L(self.0.clone())
    }
}
impl Default for L {
    fn default() -> L {
        L(vec!["z".to_string()])
    }
}
conversions!(L);
pub struct It(String);
impl From<Raw> for It {
    fn from(r: Raw) -> It {
        It(format!("into({})", r.0))
    }
}
pub fn it(label: &str) -> It {
    It(label.to_string())
}
impl Extend<It> for L {
    fn extend<I: IntoIterator<Item = It>>(&mut self, iter: I) {
        self.0.extend(iter.into_iter().map(|i| i.0))
    }
}
impl<T: Show> Show for Option<T> {
    fn show(&self) -> String {
        match self {
            None => "None".to_string(),
            Some(v) => format!("Some({})", v.show()),
        }
    }
}
impl<T: Mk> Mk for Option<T> {
    fn mk(label: &str) -> Self {
        Some(T::mk(label))
    }
    fn parse(term: &str) -> Self {
        if term == "None" {
            None
        } else {
            Some(T::parse(&term[5..term.len() - 1]))
        }
    }
}
impl std::convert::TryFrom<Tr> for Option<Option<V>> {
    type Error = TrErr;
    fn try_from(t: Tr) -> Result<Self, TrErr> {
        <V as std::convert::TryFrom<Tr>>::try_from(t).map(|v| Some(Some(v)))
    }
}
pub type OptV = Option<V>;
pub trait HasItem {
    type Item;
}
impl HasItem for V {
    type Item = V;
}
pub trait Lent<'a> {}
impl<'a> Lent<'a> for V {}
pub trait HasOpt {
    type O;
}
impl HasOpt for V {
    type O = Option<V>;
}

// ------------------------------------------------- user code in derive options
pub fn mk<T: Mk>(label: &str) -> T {
    T::mk(label)
}
/// Own default of a field.
pub fn dfl<T: Mk>(id: &str) -> T {
    log(format!("dflt:{}", id));
    T::mk(&format!("d:{}", id))
}
pub fn dfl_f<T: Mk>(id: &str) -> Result<T, String> {
    log(format!("dflt:{}", id));
    if fails(id) {
        Err(format!("fail:{}", id))
    } else {
        Ok(T::mk(&format!("d:{}", id)))
    }
}
pub fn dself<T: Mk, S: SlotKind>(id: &str, k: S) -> T {
    log(format!("dflt:{}", id));
    T::mk(&format!("self({})", k.slot()))
}
/// Build expression of a field.
pub fn bld<T: Mk, S: SlotKind>(id: &str, k: S) -> T {
    log(format!("bld:{}", id));
    T::mk(&format!("b({})", k.slot()))
}
pub fn bld_f<T: Mk, S: SlotKind>(id: &str, k: S) -> Result<T, String> {
    log(format!("bld:{}", id));
    if fails(id) {
        Err(format!("fail:{}", id))
    } else {
        Ok(T::mk(&format!("b({})", k.slot())))
    }
}
/// Struct-level default is about to be made.
pub fn sd() {
    log("sdflt".to_string())
}
pub fn sd_f<T>(make: fn() -> T) -> Result<T, String> {
    log("sdflt".to_string());
    if fails("*") {
        Err("fail:*".to_string())
    } else {
        Ok(make())
    }
}
pub fn validate(slots: Vec<String>) -> Result<(), String> {
    log(format!("validate:{}", slots.join(",")));
    ENV.with(|e| {
        let e = e.borrow();
        if e.verdict == "ok" {
            Ok(())
        } else {
            Err(e.verdict.clone())
        }
    })
}

// --------------------------------------------------------------------- slots
/// A slot of the builder, seen as what it is declared to be.
pub trait SlotKind {
    fn slot(&self) -> String;
}
pub struct Opt<'a, T>(pub &'a Option<T>);
pub struct Pre<'a, T>(pub &'a T);
pub struct Pha<'a, T: ?Sized>(pub &'a std::marker::PhantomData<T>);
impl<T: Show> SlotKind for Opt<'_, T> {
    fn slot(&self) -> String {
        match self.0 {
            None => "-".to_string(),
            Some(v) => format!("={}", v.show()),
        }
    }
}
impl<T: Show> SlotKind for Pre<'_, T> {
    fn slot(&self) -> String {
        format!("!{}", self.0.show())
    }
}
impl<T: ?Sized> SlotKind for Pha<'_, T> {
    fn slot(&self) -> String {
        "~".to_string()
    }
}
pub fn poke_opt<T: Mk>(s: &str) -> Option<T> {
    if s == "-" {
        None
    } else {
        Some(T::parse(&s[1..]))
    }
}
pub fn poke_pre<T: Mk>(s: &str) -> T {
    T::parse(&s[1..])
}

// -------------------------------------------------------------------- errors
pub fn disp<E: std::fmt::Display>(e: &E) -> String {
    e.to_string()
}
pub fn is_error<E: std::error::Error>() {}
fn uninit(e: derive_builder::UninitializedFieldError) -> String {
    let n: &'static str = e.field_name();
    let a = derive_builder::UninitializedFieldError::new(n);
    let b: derive_builder::UninitializedFieldError = n.into();
    let text = e.to_string();
    let c = e.clone();
    if a.field_name() != n || b.field_name() != n || c.field_name() != n || c.to_string() != text
        || a.to_string() != text || b.to_string() != text
    {
        return format!("inconsistent {:?} {:?} {:?}", a, b, c);
    }
    format!("{}:{}", n, text)
}
#[derive(Debug)]
pub enum CustomErr {
    U(String),
    V(String),
}
impl From<derive_builder::UninitializedFieldError> for CustomErr {
    fn from(e: derive_builder::UninitializedFieldError) -> Self {
        CustomErr::U(uninit(e))
    }
}
impl From<String> for CustomErr {
    fn from(e: String) -> Self {
        CustomErr::V(e)
    }
}
impl CustomErr {
    pub fn text(self) -> String {
        match self {
            CustomErr::U(s) => format!("CU:{}", s),
            CustomErr::V(s) => format!("CV:{}", s),
        }
    }
}
/// A custom error with a parameter.
#[derive(Debug)]
pub struct CustomErrOf<E>(CustomErr, core::marker::PhantomData<E>);
impl<E> From<derive_builder::UninitializedFieldError> for CustomErrOf<E> {
    fn from(e: derive_builder::UninitializedFieldError) -> Self {
        CustomErrOf(e.into(), core::marker::PhantomData)
    }
}
impl<E> From<String> for CustomErrOf<E> {
    fn from(e: String) -> Self {
        CustomErrOf(e.into(), core::marker::PhantomData)
    }
}
impl<E> CustomErrOf<E> {
    pub fn text(self) -> String {
        self.0.text()
    }
}
#[derive(Debug)]
pub struct CustomErrNoUninit(String);
impl From<String> for CustomErrNoUninit {
    fn from(e: String) -> Self {
        CustomErrNoUninit(e)
    }
}
impl CustomErrNoUninit {
    pub fn text(self) -> String {
        format!("CV:{}", self.0)
    }
}

// -------------------------------------------------------------------- driver
pub struct Op {
    pub k: String,
    pub h: usize,
    pub f: usize,
    pub a: String,
    pub d: usize,
    pub v: String,
    pub x: Vec<String>,
}
/// One rendered module: applies an operation, shows the slots of a handle.
pub trait Driver {
    fn apply(&mut self, op: &Op) -> String;
    fn handle(&self, h: usize) -> Option<Vec<String>>;
}
fn json(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn json_list<S: AsRef<str>>(l: &[S]) -> String {
    let v: Vec<String> = l.iter().map(|s| json(s.as_ref())).collect();
    format!("[{}]", v.join(","))
}
fn unescape(s: &str) -> String {
    let mut o = String::new();
    let mut it = s.chars();
    while let Some(c) = it.next() {
        if c == '\\' {
            match it.next() {
                Some('n') => o.push('\n'),
                Some('t') => o.push('\t'),
                Some(c) => o.push(c),
                None => (),
            }
        } else {
            o.push(c)
        }
    }
    o
}
/// Reads operations `tid \t k \t h \t f \t a \t d \t v \t x1|x2` and writes one event per line.
pub fn run_all(ops: &str, out: &str, make: &[(usize, fn() -> Box<dyn Driver>)]) {
    std::panic::set_hook(Box::new(|_| {}));
    let make: HashMap<usize, fn() -> Box<dyn Driver>> = make.iter().cloned().collect();
    let input = std::io::BufReader::new(std::fs::File::open(ops).unwrap());
    let mut output = std::io::BufWriter::new(std::fs::File::create(out).unwrap());
    let mut cur: Option<(usize, Box<dyn Driver>)> = None;
    let mut dead = 0;
    for line in input.lines() {
        let line = line.unwrap();
        let p: Vec<String> = line.split('\t').map(unescape).collect();
        let tid: usize = p[0].parse().unwrap();
        let f = match make.get(&tid) {
            None => continue,
            Some(f) => f,
        };
        if dead == tid {
            continue;
        }
        if cur.as_ref().map(|c| c.0) != Some(tid) {
            cur = Some((tid, f()));
        }
        let op = Op {
            k: p[1].clone(),
            h: p[2].parse().unwrap(),
            f: p[3].parse().unwrap(),
            a: p[4].clone(),
            d: p[5].parse().unwrap(),
            v: p[6].clone(),
            x: p[7].split('|').map(str::to_string).collect(),
        };
        ENV.with(|e| {
            let mut e = e.borrow_mut();
            e.verdict = op.v.clone();
            e.fails = op.x.clone();
        });
        start();
        let d = &mut cur.as_mut().unwrap().1;
        let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| d.apply(&op)));
        let (log, clones) = ENV.with(|e| {
            let e = e.borrow();
            (e.log.clone(), e.clones.clone())
        });
        let res = match res {
            Ok(s) => s,
            Err(_) => {
                dead = tid;
                "panic".to_string()
            }
        };
        let hs: Vec<String> = (1..=3)
            .map(|h| {
                match if dead == tid { None } else { d.handle(h) } {
                    None => "{\"live\":false,\"s\":[]}".to_string(),
                    Some(s) => format!("{{\"live\":true,\"s\":{}}}", json_list(&s)),
                }
            })
            .collect();
        let first = clones.iter().filter(|n| **n == 0).count();
        writeln!(
            output,
            "{{\"tid\":{},\"out\":{},\"log\":{},\"clones\":{},\"early\":{},\"post\":[{}]}}",
            tid,
            json(&res),
            json_list(&log),
            clones.len(),
            first,
            hs.join(",")
        )
        .unwrap();
        // so that nothing is lost should the next operation crash
        output.flush().unwrap();
    }
    output.flush().unwrap();
}

// Macros of the rendered drivers; `$h` is the array of handles.
#[macro_export]
macro_rules! slots {
    ($($e:expr),* $(,)?) => { $crate::std::vec![$($crate::SlotKind::slot(&$e)),*] };
}
#[macro_export]
macro_rules! same {
    ($p:expr, $r:expr) => {{
        let r: *const B = $r;
        $crate::std::string::String::from(if $p == r { "same" } else { "other" })
    }};
}
#[macro_export]
macro_rules! call_mutable {
    ($h:expr, $op:expr, $m:ident, $a:expr) => {{
        let a = $a;
        let b: &mut B = $h[$op.h].as_mut().unwrap();
        let p: *const B = b;
        $crate::start();
        let r: &mut B = b.$m(a);
        $crate::same!(p, r)
    }};
}
#[macro_export]
macro_rules! call_immutable {
    ($h:expr, $op:expr, $m:ident, $a:expr) => {{
        let a = $a;
        $crate::start();
        let r: B = {
            let b: &B = $h[$op.h].as_ref().unwrap();
            b.$m(a)
        };
        $h[$op.d] = $crate::core::option::Option::Some(r);
        $crate::std::string::String::from("ok")
    }};
}
#[macro_export]
macro_rules! call_owned {
    ($h:expr, $op:expr, $m:ident, $a:expr) => {{
        let a = $a;
        let b: B = $h[$op.h].take().unwrap();
        $crate::start();
        let r: B = b.$m(a);
        $h[$op.d] = $crate::core::option::Option::Some(r);
        $crate::std::string::String::from("ok")
    }};
}
pub fn ok() -> String {
    "ok".to_string()
}
pub fn bad() -> String {
    "bad op".to_string()
}
pub fn tr_err(e: TrErr) -> String {
    format!("err:{}", e.0)
}
#[macro_export]
macro_rules! try_mutable {
    ($h:expr, $op:expr, $m:ident, $a:expr) => {{
        let a = $a;
        let b: &mut B = $h[$op.h].as_mut().unwrap();
        let p: *const B = b;
        $crate::start();
        let r: $crate::core::result::Result<&mut B, $crate::TrErr> = b.$m(a);
        match r {
            $crate::core::result::Result::Ok(r) => $crate::same!(p, r),
            $crate::core::result::Result::Err(e) => $crate::tr_err(e),
        }
    }};
}
#[macro_export]
macro_rules! try_immutable {
    ($h:expr, $op:expr, $m:ident, $a:expr) => {{
        let a = $a;
        $crate::start();
        let r: $crate::core::result::Result<B, $crate::TrErr> = {
            let b: &B = $h[$op.h].as_ref().unwrap();
            b.$m(a)
        };
        match r {
            $crate::core::result::Result::Ok(r) => {
                $h[$op.d] = $crate::core::option::Option::Some(r);
                $crate::std::string::String::from("ok")
            }
            $crate::core::result::Result::Err(e) => $crate::tr_err(e),
        }
    }};
}
#[macro_export]
macro_rules! try_owned {
    ($h:expr, $op:expr, $m:ident, $a:expr) => {{
        let a = $a;
        let b: B = $h[$op.h].take().unwrap();
        $crate::start();
        let r: $crate::core::result::Result<B, $crate::TrErr> = b.$m(a);
        match r {
            $crate::core::result::Result::Ok(r) => {
                $h[$op.d] = $crate::core::option::Option::Some(r);
                $crate::std::string::String::from("ok")
            }
            $crate::core::result::Result::Err(e) => $crate::tr_err(e),
        }
    }};
}
#[macro_export]
macro_rules! build_owned {
    ($h:expr, $op:expr, $m:ident) => {{
        let b: B = $h[$op.h].take().unwrap();
        $crate::start();
        b.$m()
    }};
}
#[macro_export]
macro_rules! build_ref {
    ($h:expr, $op:expr, $m:ident) => {{
        let b: &B = $h[$op.h].as_ref().unwrap();
        $crate::start();
        b.$m()
    }};
}
