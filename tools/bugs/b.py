"""Planted bugs that began as trials (tools/trials); each with a demonstration."""
import os
import runpy

D = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TRIALS = {i: e for t in ('t1', 't2') for i, _, e in runpy.run_path(f'{D}/trials/{t}.py')['T']}
BUGS = {}


def bug(i, **kw):
    kw.setdefault('edits', TRIALS.get(i))
    BUGS[i] = kw


bug('first-wins-each-strip', property='P01',
    needs='an immutable setter with strip_option on a field that also declares each, called twice on one chain',
    breaks='the second call of the setter is ignored instead of replacing the value',
    demo='''
use derive_builder::Builder;
#[derive(Builder)]
#[builder(pattern = "immutable", setter(strip_option))]
struct S { #[builder(setter(each = "item"))] a: Option<Vec<u8>> }
fn main() {
    let b = SBuilder::default().a(vec![1]).item(2u8);
    assert_eq!(b.build().unwrap().a, Some(vec![1, 2]));
    assert_eq!(b.a(vec![3]).build().unwrap().a, Some(vec![3]));
    assert_eq!(b.build().unwrap().a, Some(vec![1, 2]));
}
''')

bug('each-optional', property='P02',
    needs='a required collection field with each whose setter is generic over Into, never set',
    breaks='build succeeds with an empty collection instead of reporting the uninitialized field',
    demo='''
use derive_builder::Builder;
#[derive(Builder, Debug)]
struct S { #[builder(setter(into, each = "item"))] a: Vec<u8>, b: u8 }
fn main() {
    assert_eq!(SBuilder::default().b(1).build().unwrap_err().to_string(), "`a` must be initialized");
    assert!(SBuilder::default().b(1).item(3u8).build().is_ok());
}
''')

bug('opt-opt-optional', property='P02',
    needs='a required field of type Option<Option<T>> that is never set',
    breaks='build succeeds with None instead of reporting the uninitialized field',
    demo='''
use derive_builder::Builder;
#[derive(Builder, Debug)]
struct S { a: Option<Option<u8>>, b: Option<u8> }
fn main() {
    assert_eq!(SBuilder::default().a(None).build().unwrap_err().to_string(), "`b` must be initialized");
    assert_eq!(SBuilder::default().b(None).build().unwrap_err().to_string(), "`a` must be initialized");
}
''')

bug('phantomdata-optional', property='P02',
    needs='a required field of type PhantomData<T> that is never set',
    breaks='build succeeds instead of reporting the uninitialized field',
    demo='''
use derive_builder::Builder;
use std::marker::PhantomData;
#[derive(Builder, Debug)]
struct S { a: u8, b: PhantomData<u8> }
fn main() {
    assert_eq!(SBuilder::default().a(1).build().unwrap_err().to_string(), "`b` must be initialized");
    assert!(SBuilder::default().a(1).b(PhantomData).build().is_ok());
}
''')

bug('take-custom', property='P04',
    needs='a borrowing build of a struct with a custom builder field type and no build block, called twice on one builder',
    breaks='the first build takes the value out of the builder, so the second build sees its default',
    demo='''
use derive_builder::Builder;
#[derive(Builder, Debug, PartialEq)]
struct S { #[builder(field(ty = "u16"))] a: u16, b: u8 }
fn main() {
    let mut b = SBuilder::default();
    b.a(5).b(6);
    let one = b.build().unwrap();
    assert_eq!(one, S { a: 5, b: 6 });
    assert_eq!(b.build().unwrap(), one);
}
''')

bug('clone-drops-custom', property='P04',
    needs='a struct without generics and with four fields or more, one of them with a custom builder field type; a clone of its builder',
    breaks='the clone has the default instead of the value that was set',
    demo='''
use derive_builder::Builder;
#[derive(Builder, Debug, PartialEq)]
struct S { #[builder(field(ty = "u16", build = "self.a.into()"))] a: u32, b: u8, c: u8, d: u8 }
fn main() {
    let mut b = SBuilder::default();
    b.a(5).b(6).c(7).d(8);
    assert_eq!(b.clone().build().unwrap(), b.build().unwrap());
    assert_eq!(b.build().unwrap().a, 5);
}
''')

bug('try-parent-pattern', property='P05',
    needs='a try_setter on a renamed field with a pattern of its own in a struct with the mutable pattern',
    breaks='the fallible setter takes and returns &mut self although the field asks for the owned pattern',
    demo='''
use derive_builder::Builder;
#[derive(Builder, Debug)]
#[builder(try_setter)]
struct S { #[builder(pattern = "owned", setter(name = "put"))] a: u8 }
fn main() {
    let b: SBuilder = SBuilder::default().try_put(7u16).unwrap();
    assert_eq!(b.build().unwrap().a, 7);
}
''')

bug('each-default-base', property='P07',
    needs='a field with each and an explicit default whose first item is added before the field is set',
    breaks='the item is added to the default instead of to an empty collection',
    demo='''
use derive_builder::Builder;
#[derive(Builder, Debug)]
struct S { #[builder(default = "vec![9]", setter(each = "item"))] a: Vec<u8> }
fn main() {
    assert_eq!(SBuilder::default().build().unwrap().a, vec![9]);
    assert_eq!(SBuilder::default().item(1u8).build().unwrap().a, vec![1]);
}
''')

bug('strip-only-single-arg-depth', property='P08',
    needs='into together with strip_option on a field that is an Option of a reference',
    breaks='the setter takes what converts into the Option instead of what converts into the reference',
    demo='''
use derive_builder::Builder;
struct W(&'static str);
impl From<W> for &'static str { fn from(w: W) -> Self { w.0 } }
#[derive(Builder, Debug)]
#[builder(setter(into, strip_option))]
struct S { a: Option<&'static str> }
fn main() {
    assert_eq!(SBuilder::default().a(W("x")).build().unwrap().a, Some("x"));
}
''')

bug('validate-twice', property='P09',
    needs='a validator together with a struct-level default in an owned builder',
    breaks='the validator runs a second time, after the struct-level default',
    demo='''
use derive_builder::Builder;
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
static N: AtomicUsize = AtomicUsize::new(0);
#[derive(Builder, Debug, Default)]
#[builder(pattern = "owned", default, build_fn(validate = "check"))]
struct S { a: u8, b: u8 }
fn check(b: &SBuilder) -> Result<(), String> {
    N.fetch_add(1, SeqCst);
    if b.a == Some(9) { Err("nine".into()) } else { Ok(()) }
}
fn main() {
    assert_eq!(SBuilder::default().a(1).build().unwrap().a, 1);
    assert_eq!(N.load(SeqCst), 1);
    assert_eq!(SBuilder::default().a(9).build().unwrap_err().to_string(), "nine");
}
''')

bug('custom-err-setter-name', property='P10',
    needs='a custom build error and an unset required field whose setter has another name than the field',
    breaks='the error carries the name of the setter instead of the name of the field',
    demo='''
use derive_builder::{Builder, UninitializedFieldError};
#[derive(Debug)]
struct E(&'static str);
impl From<UninitializedFieldError> for E { fn from(e: UninitializedFieldError) -> E { E(e.field_name()) } }
#[derive(Builder, Debug)]
#[builder(build_fn(error = "E"), setter(prefix = "with"))]
struct S { a: u8, b: u8 }
fn main() {
    assert_eq!(SBuilder::default().with_a(1).build().unwrap_err().0, "b");
}
''')

bug('each-prefixed', property='P12',
    needs='each with the name of its own field, whose setter has another name',
    breaks='the item setter gets the name of the field setter',
    demo='''
use derive_builder::Builder;
#[derive(Builder, Debug)]
struct S { #[builder(setter(name = "all", each = "a"))] a: Vec<u8> }
fn main() {
    assert_eq!(SBuilder::default().all(vec![1]).a(2u8).build().unwrap().a, vec![1, 2]);
}
''')

bug('prefix-dup', property='P12',
    needs='a setter prefix that the name of the field begins with',
    breaks='the prefix is left out of the name of the setter',
    demo='''
use derive_builder::Builder;
#[derive(Builder, Debug)]
#[builder(setter(prefix = "set"))]
struct S { set_tings: u8 }
fn main() {
    assert_eq!(SBuilder::default().set_set_tings(1).build().unwrap().set_tings, 1);
}
''')

bug('field-vis-parent-for-custom', property='P13',
    needs='setter(custom) together with field(ty) without a visibility of its own in a struct with builder(field(public))',
    breaks='the builder field is private instead of public',
    demo='''
mod m {
    use derive_builder::Builder;
    #[derive(Builder, Debug)]
    #[builder(field(public))]
    pub struct S { #[builder(setter(custom), field(ty = "u8", build = "self.a + 1"))] a: u8 }
}
fn main() { let mut b = m::SBuilder::default(); b.a = 1; assert!(format!("{:?}", b.build().unwrap()).contains('2')); }
''')

bug('attrs-dedup', property='P14',
    needs='the same pass-through attribute twice in a row',
    breaks='the second is dropped',
    demo='''
use quote::ToTokens;
fn main() {
    let s = "struct S { #[builder_setter_attr(doc = \\"x\\")] #[builder_setter_attr(doc = \\"x\\")] a: u8 }";
    let out = derive_builder_core::builder_for_struct(syn::parse_str(s).unwrap());
    let f = syn::parse2::<syn::File>(out).unwrap();
    let mut n = 0;
    for i in f.items {
        if let syn::Item::Impl(i) = i {
            for x in i.items {
                if let syn::ImplItem::Fn(x) = x {
                    if x.sig.ident == "a" {
                        n = x.attrs.iter().filter(|a| a.to_token_stream().to_string().contains("\\"x\\"")).count();
                    }
                }
            }
        }
    }
    assert_eq!(n, 2);
}
''', core=True)

bug('mutable-each-clone', property='P16',
    needs='each with strip_option in a mutable builder, on a collection that is not Clone or counts its clones',
    breaks='every added item clones the whole collection',
    demo='''
use derive_builder::Builder;
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
static N: AtomicUsize = AtomicUsize::new(0);
#[derive(Default, Debug)]
struct Bag(Vec<u8>);
impl Clone for Bag { fn clone(&self) -> Bag { N.fetch_add(1, SeqCst); Bag(self.0.clone()) } }
impl Extend<u8> for Bag { fn extend<I: IntoIterator<Item = u8>>(&mut self, i: I) { self.0.extend(i) } }
#[derive(Builder, Debug)]
#[builder(setter(strip_option))]
struct S { #[builder(setter(each = "item"))] a: Option<Bag> }
fn main() {
    let mut b = SBuilder::default();
    b.item(1u8).item(2u8).item(3u8);
    assert_eq!(N.load(SeqCst), 0);
    assert_eq!(b.build().unwrap().a.unwrap().0, vec![1, 2, 3]);
}
''')

bug('where-lost-on-default', property='P17',
    needs='a struct with two predicates or more in its where clause whose builder does not derive Clone',
    breaks='the Default impl of the builder has no where clause, so the generated code does not compile',
    demo='''
use derive_builder::Builder;
#[derive(Builder, Debug)]
#[builder(pattern = "owned")]
struct S<T, U> where T: Iterator, U: From<T::Item> { a: T, b: U }
fn main() {
    let s = SBuilder::default().a(std::iter::once(1u8)).b(2u16).build().unwrap();
    assert_eq!(s.a.count() as u16 + s.b, 3);
}
''')

bug('block-when-default-struct', property='P18',
    needs='an owned builder with a struct-level default and a field with a build block',
    breaks='the block is not evaluated: the field comes from the default',
    demo='''
use derive_builder::Builder;
#[derive(Builder, Debug, Default)]
#[builder(pattern = "owned", default)]
struct S { #[builder(field(ty = "u8", build = "self.a + 1"))] a: u8, b: u8 }
fn main() {
    let s = SBuilder::default().a(4).build().unwrap();
    assert_eq!((s.a, s.b), (5, 0));
}
''')

bug('eager-owned-default', property='P03',
    needs='an owned builder, a default that is a single call, and a field that is set',
    breaks='the default is evaluated although the field was set',
    demo='''
use derive_builder::Builder;
fn costly() -> u8 { panic!("evaluated") }
#[derive(Builder, Debug)]
#[builder(pattern = "owned")]
struct S { #[builder(default = "costly()")] a: u8 }
fn main() { assert_eq!(SBuilder::default().a(1).build().unwrap().a, 1); }
''')

bug('many-fields-reject', property='P15',
    needs='build_fn(skip, validate = ..) together',
    breaks='a combination of options that does not conflict is rejected',
    demo='''
use derive_builder::Builder;
#[derive(Builder, Debug)]
#[builder(build_fn(skip, validate = "check"))]
struct S { a: u8 }
#[allow(dead_code)]
fn check(_: &SBuilder) -> Result<(), String> { Ok(()) }
fn main() { let mut b = SBuilder::default(); b.a(1); assert_eq!(b.a, Some(1)); let _ = S { a: 1 }.a; }
''')
