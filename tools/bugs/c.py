"""Planted bugs against what generated code says of itself."""
BUGS = {}


def bug(i, **kw):
    BUGS[i] = kw


bug('build-doc-only-if-required', property='P21',
    edits=[('derive_builder_core/src/build_method.rs', '''        let doc_comment = &self.doc_comment;
''', '''        // With a default for the struct no field is required, so there are no errors to tell of.
        let doc_comment = self.doc_comment.as_ref().filter(|_| self.default_struct.is_none());
''')],
    needs='a crate under missing_docs with a public struct that has a struct-level default',
    breaks='the build method has no documentation',
    demo='''
#![deny(missing_docs)]
//! Documented.
use derive_builder::Builder;
/// A struct.
#[derive(Builder, Debug, Default)]
#[builder(default)]
pub struct S {
    /// A field.
    pub a: u8,
}
fn main() { assert_eq!(SBuilder::default().build().unwrap().a, 0); }
''')

bug('each-undocumented', property='P21',
    edits=[('derive_builder_core/src/setter.rs', '''            if let Some(each) = self.each {
                let ident_each = &each.name;
''', '''            if let Some(each) = self.each {
                let ident_each = &each.name;
                // What is said of the collection does not hold for one of its items.
                let attrs = attrs.iter().filter(|attr| !(each.into && attr.path().is_ident("doc")));
''')],
    needs='a crate under missing_docs with a documented field that has each(into)',
    breaks='the setter that extends the collection has no documentation',
    demo='''
#![deny(missing_docs)]
//! Documented.
/// The public part of a library.
pub mod api {
    use derive_builder::Builder;
    /// A struct.
    #[derive(Builder, Debug)]
    pub struct S {
        /// A field.
        #[builder(setter(each(name = "item", into)))]
        pub a: Vec<u16>,
    }
}
fn main() {
    let s = api::SBuilder::default().item::<u16, u8>(1u8).item::<u16, u8>(2u8).build().unwrap();
    assert_eq!(s.a, vec![1, 2]);
}
''')
