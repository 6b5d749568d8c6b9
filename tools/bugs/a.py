C = 'derive_builder_core/src/'
OPT = C + 'macro_options/darling_opts.rs'
BUGS = {}


def bug(i, **kw):
    BUGS[i] = kw


bug('try-not-inherited-with-each', property='P06',
    edits=[(OPT, "        self.field.try_setter.is_present() || self.parent.try_setter.is_present()\n",
            "        self.field.try_setter.is_present()\n            || (self.parent.try_setter.is_present() && self.field.setter.each.is_none())\n")],
    needs='struct-level try_setter on a struct with a field that declares each',
    breaks='the fallible setter of such a field is no longer generated',
    demo='''
use derive_builder::Builder;
#[derive(Clone, Default, PartialEq, Debug)]
struct Bag(Vec<u8>);
impl Extend<u8> for Bag { fn extend<I: IntoIterator<Item = u8>>(&mut self, i: I) { self.0.extend(i) } }
impl std::convert::TryFrom<&str> for Bag {
    type Error = ();
    fn try_from(s: &str) -> Result<Self, ()> { if s.is_empty() { Err(()) } else { Ok(Bag(s.bytes().collect())) } }
}
#[derive(Builder)]
#[builder(try_setter)]
struct S { #[builder(setter(each = "item"))] a: Bag }
fn main() {
    let mut b = SBuilder::default();
    assert!(b.try_a("ab").is_ok());
    assert!(b.try_a("").is_err());
    b.item(1);
    assert_eq!(b.build().unwrap().a, Bag(vec![97, 98, 1]));
}
''')

bug('try-strip-custom-ty', property='P06',
    edits=[(C + 'setter.rs', """                if builder_field_is_option {
                    converted = wrap_expression_in_some(crate_root, converted);
                }
                if stripped_option {
                    converted = wrap_expression_in_some(crate_root, converted);
                }
""", """                if builder_field_is_option {
                    converted = wrap_expression_in_some(crate_root, converted);
                    if stripped_option {
                        converted = wrap_expression_in_some(crate_root, converted);
                    }
                }
""")],
    needs='try_setter, strip_option and field(ty = "Option<..>") on the same field',
    breaks='the fallible setter forgets to wrap the converted value, so the derive output does not compile',
    demo='''
use derive_builder::Builder;
#[derive(Builder, Debug)]
#[builder(try_setter)]
struct S { #[builder(setter(strip_option), field(ty = "Option<u8>", build = "self.a.unwrap_or(9)"))] a: u8 }
fn main() {
    let mut b = SBuilder::default();
    assert_eq!(b.build().unwrap().a, 9);
    assert!(b.try_a(300u16).is_err());
    assert_eq!(b.build().unwrap().a, 9);
    b.try_a(7u16).unwrap();
    assert_eq!(b.build().unwrap().a, 7);
}
''')

bug('each-none-panics', property='P07',
    edits=[(C + 'setter.rs', """                    .get_or_insert_with(#crate_root::export::core::default::Default::default))
""", """                    .as_mut()
                    .unwrap())
""")],
    needs='each with strip_option on a field whose builder slot holds Some(None)',
    breaks='the item-adding setter panics instead of starting a new collection',
    demo='''
use derive_builder::Builder;
#[derive(Builder)]
struct S { #[builder(setter(strip_option, each = "item"))] a: Option<Vec<u8>> }
fn main() {
    let mut b = SBuilder { a: Some(None) };
    b.item(1).item(2);
    assert_eq!(b.build().unwrap().a, Some(vec![1, 2]));
    assert_eq!(SBuilder::default().item(4).build().unwrap().a, Some(vec![4]));
}
''')

bug('validate-after-default', property='P09',
    edits=[(C + 'build_method.rs', """                    #validate_fn
                    #default_struct
""", """                    #default_struct
                    #validate_fn
""")],
    needs='a validator together with a struct-level default expression that fails or has effects',
    breaks='the struct default is evaluated before the validator had its say',
    demo='''
use derive_builder::Builder;
#[derive(Builder, Debug)]
#[builder(build_fn(validate = "Self::check"), default = "S::fallback()?")]
struct S { a: u8 }
impl S { fn fallback() -> Result<S, String> { Err("fallback".into()) } }
impl SBuilder { fn check(&self) -> Result<(), String> { if self.a == Some(1) { Err("check".into()) } else { Ok(()) } } }
fn main() {
    assert_eq!(SBuilder::default().a(1).build().unwrap_err().to_string(), "check");
    assert_eq!(SBuilder::default().a(2).build().unwrap_err().to_string(), "fallback");
}
''')

bug('default-struct-only-if-used', property='P03',
    edits=[(OPT, "            default_struct: self.default.as_ref(),\n",
            "            // Nothing to evaluate when no field falls back to it.\n            default_struct: self\n                .default\n                .as_ref()\n                .filter(|_| self.fields().any(|f| f.use_parent_default())),\n")],
    needs='a struct-level default while every field has a default of its own',
    breaks='the struct-level default expression (and its failure) is silently dropped from build',
    demo='''
use derive_builder::Builder;
use std::cell::Cell;
thread_local!(static N: Cell<u32> = Cell::new(0));
#[derive(Builder)]
#[builder(default = "S::make()")]
struct S { #[builder(default = "1")] a: u8, #[builder(default)] b: u8 }
impl S { fn make() -> S { N.with(|n| n.set(n.get() + 1)); S { a: 0, b: 0 } } }
fn main() {
    let s = SBuilder::default().a(3).build().unwrap();
    assert_eq!((s.a, s.b), (3, 0));
    assert_eq!(N.with(|n| n.get()), 1);
}
''')

bug('clone-from-fields-only', property='P16',
    edits=[(OPT, "        self.pattern.requires_clone() || self.fields().any(|f| f.pattern().requires_clone())\n",
            "        self.fields().any(|f| f.pattern().requires_clone())\n")],
    needs='a non-owned struct pattern while every field is declared pattern = "owned"',
    breaks='the builder, whose build borrows it, no longer derives Clone',
    demo='''
use derive_builder::Builder;
#[derive(Builder)]
#[builder(pattern = "immutable")]
struct S { #[builder(pattern = "owned")] a: u8 }
fn main() {
    let b = SBuilder::default().a(4);
    let c = b.clone();
    assert_eq!(b.build().unwrap().a, c.build().unwrap().a);
}
''')

bug('no-clone-bound-immutable', property='P16',
    edits=[(C + 'builder.rs', "            if !self.pattern.requires_clone() || type_gen", "            // Immutable setters clone the builder itself, whose `derive(Clone)` has the bounds.\n            if self.pattern != BuilderPattern::Mutable || type_gen")],
    needs='a type parameter on a struct with the immutable pattern',
    breaks='the impls lack the Clone bound of type parameters, so the expansion does not compile',
    demo='''
use derive_builder::Builder;
#[derive(Builder, PartialEq, Debug)]
#[builder(pattern = "immutable")]
struct S<T> { a: T }
fn main() {
    assert_eq!(SBuilder::default().a(1u16).build().unwrap(), S { a: 1 });
}
''')

bug('phantom-field-vis', property='P13',
    edits=[(OPT, """            .or_else(|| self.parent.field.to_explicit_visibility())
            .unwrap_or(Cow::Owned(syn::Visibility::Inherited))
""", """            .unwrap_or(Cow::Owned(syn::Visibility::Inherited))
"""), (OPT, """            .field
            .visibility
            .to_explicit_visibility()
            .or_else(
""", """            .field
            .visibility
            .to_explicit_visibility()
            .or_else(|| self.parent.field.to_explicit_visibility())
            .or_else(
""")],
    needs='struct-level field(public) together with a skipped field',
    breaks='the phantom field of a skipped field becomes public',
    demo='''
mod m {
    use derive_builder::Builder;
    #[derive(Builder)]
    #[builder(field(public))]
    pub struct S { pub a: u8, #[builder(setter(skip))] pub b: u8 }
}
fn main() {
    let mut x = m::SBuilder::default();
    x.a = Some(3);
    let s = x.build().unwrap();
    assert_eq!((s.a, s.b), (3, 0));
}
''', bad='''
mod m {
    use derive_builder::Builder;
    #[derive(Builder)]
    #[builder(field(public))]
    pub struct S { pub a: u8, #[builder(setter(skip))] pub b: u8 }
}
fn main() {
    let x = m::SBuilder::default();
    let _ = x.b;
}
''')

bug('build-vis-of-struct', property='P13',
    edits=[(OPT, "            .unwrap_or_else(|| self.builder_vis())\n",
            "            .unwrap_or_else(|| match self.visibility {\n                VisibilityAttr::Public(_) | VisibilityAttr::Private => self.builder_vis(),\n                _ => Cow::Borrowed(&self.vis),\n            })\n")],
    needs='vis = "..." on the builder that differs from the struct\'s visibility and no build_fn visibility',
    breaks='build gets the struct\'s visibility instead of the builder\'s',
    core=True,
    demo='''
use syn::{parse_quote, ImplItem, Item, Visibility};
fn vis_of(ast: syn::DeriveInput) -> String {
    let f: syn::File = syn::parse2(derive_builder_core::builder_for_struct(ast)).unwrap();
    for item in f.items {
        if let Item::Impl(i) = item {
            for m in i.items {
                if let ImplItem::Fn(m) = m {
                    if m.sig.ident == "build" {
                        return match m.vis {
                            Visibility::Public(_) => "pub".into(),
                            Visibility::Inherited => "".into(),
                            v => quote::quote!(#v).to_string().replace(' ', ""),
                        };
                    }
                }
            }
        }
    }
    panic!("no build")
}
fn main() {
    assert_eq!(vis_of(parse_quote!(#[builder(public)] struct S { a: u8 })), "pub");
    assert_eq!(vis_of(parse_quote!(#[builder(private)] pub struct S { a: u8 })), "");
    assert_eq!(vis_of(parse_quote!(#[builder(vis = "pub(crate)")] pub struct S { a: u8 })), "pub(crate)");
    assert_eq!(vis_of(parse_quote!(#[builder(build_fn(private))] pub struct S { a: u8 })), "");
}
''')

bug('no-validation-in-no-std', property='P10',
    edits=[(OPT, "                .map(|e| *e.validation_error)\n                .unwrap_or(true),\n",
            "                .map(|e| *e.validation_error)\n                .unwrap_or_else(|| !self.no_std.is_present() || self.build_fn.validate.is_some()),\n")],
    needs='no_std on a builder without a validator whose error is used with a message',
    breaks='the generated error lacks its validation variant and From<String>',
    demo='''
use derive_builder::Builder;
#[derive(Builder, Debug)]
#[builder(no_std)]
struct S { #[builder(default = "Err(String::from(\\"no a\\"))?")] #[allow(dead_code)] a: u8 }
fn main() {
    match SBuilder::default().build() {
        Err(SBuilderError::ValidationError(m)) => assert_eq!(m, "no a"),
        other => panic!("{:?}", other),
    }
}
''')

bug('each-does-not-reenable', property='P11',
    edits=[(OPT, "            || self.each.is_some()\n", "            || (self.each.is_some() && self.custom.is_none())\n")],
    needs='setter(each, custom = false) on a field of a struct with setter(skip)',
    breaks='the field stays skipped although each was mentioned on it',
    demo='''
use derive_builder::Builder;
#[derive(Builder)]
#[builder(setter(skip))]
struct S { #[builder(setter(each = "item", custom = false))] a: Vec<u8>, b: u8 }
fn main() {
    let s = SBuilder::default().item(1u8).item(2u8).build().unwrap();
    assert_eq!((s.a, s.b), (vec![1, 2], 0));
}
''')

bug('name-with-prefix', property='P12',
    edits=[(OPT, "        if let Some(ref custom) = self.field.setter.name {\n            return custom.clone();\n",
            "        if let Some(ref custom) = self.field.setter.name {\n            if let Some(ref prefix) = self.field.setter.prefix {\n                return format_ident!(\"{}_{}\", prefix, custom);\n            }\n            return custom.clone();\n")],
    needs='a field that gives both a setter name and a setter prefix',
    breaks='the prefix is put before the explicit name',
    demo='''
use derive_builder::Builder;
#[derive(Builder)]
struct S { #[builder(setter(name = "set", prefix = "with"))] a: u8 }
fn main() {
    assert_eq!(SBuilder::default().set(1).build().unwrap().a, 1);
}
''')

bug('derive-default-filtered', property='P17',
    edits=[(C + 'builder.rs', "                traits.extend(self.derives);\n",
            "                // `Default` is implemented below.\n                traits.extend(self.derives.iter().filter(|t| !t.is_ident(\"Default\")));\n")],
    needs='derive(Default) on a builder with a custom constructor',
    breaks='a trait listed in derive is not implemented by the builder',
    demo='''
use derive_builder::Builder;
#[derive(Builder)]
#[builder(custom_constructor, derive(Default, Debug))]
struct S { a: u8 }
impl SBuilder { fn new() -> Self { Self::create_empty() } }
fn main() {
    assert_eq!(format!("{:?}", SBuilder::default()), format!("{:?}", SBuilder::new()));
    assert_eq!(SBuilder::new().a(2).build().unwrap().a, 2);
}
''')

bug('option-suffix', property='P08',
    edits=[(C + 'setter.rs', "            .find(|s| idents_of_path == *s)\n", "            .find(|s| idents_of_path.ends_with(*s))\n")],
    needs='strip_option (here inherited) on a field whose type is another type called Option in a module',
    breaks='the argument type of a setter whose field is not a std Option is stripped too',
    demo='''
use derive_builder::Builder;
mod my { #[derive(Clone, Debug, PartialEq)] pub struct Option<T>(pub T); }
#[derive(Builder)]
#[builder(setter(strip_option))]
struct S { a: my::Option<u8>, b: Option<u8> }
fn main() {
    let s = SBuilder::default().a(my::Option(1)).b(2).build().unwrap();
    assert_eq!((s.a, s.b), (my::Option(1), Some(2)));
}
''')

bug('option-of-path-only', property='P08',
    edits=[(C + 'setter.rs', "            GenericArgument::Type(ref ty) => Some(ty),\n", "            GenericArgument::Type(ref ty @ (syn::Type::Path(_) | syn::Type::Reference(_))) => Some(ty),\n")],
    needs='strip_option on an Option of a tuple, array, function or other type that is no path',
    breaks='such an Option is not stripped',
    demo='''
use derive_builder::Builder;
#[derive(Builder)]
#[builder(setter(strip_option))]
struct S { a: Option<(u8, u8)>, b: Option<&'static str> }
fn main() {
    let s = SBuilder::default().a((1, 2)).b("x").build().unwrap();
    assert_eq!((s.a, s.b), (Some((1, 2)), Some("x")));
}
''')

bug('build-by-value-if-all-owned', property='P05',
    edits=[(OPT, "            validate_fn: self.build_fn.validate.as_ref(),\n        }\n",
            "            validate_fn: self.build_fn.validate.as_ref(),\n        }\n        .consuming(self.field_count() > 0 && self.fields().all(|f| !f.pattern().requires_clone()))\n"),
           (C + 'build_method.rs', "impl<'a> BuildMethod<'a> {\n", "impl<'a> BuildMethod<'a> {\n    /// Take the builder by value when no setter leaves it behind.\n    pub fn consuming(mut self, consume: bool) -> Self {\n        if consume {\n            self.pattern = BuilderPattern::Owned;\n        }\n        self\n    }\n\n")],
    needs='a mutable or immutable struct pattern with pattern = "owned" on every field',
    breaks='build consumes a builder it should borrow',
    demo='''
use derive_builder::Builder;
#[derive(Builder)]
struct S { #[builder(pattern = "owned")] a: u8 }
fn main() {
    let b = SBuilder::default().a(4);
    assert_eq!(b.build().unwrap().a, 4);
    assert_eq!(b.build().unwrap().a, 4);
}
''')

bug('required-fields-first', property='P03',
    edits=[(C + 'lib.rs', "        build_fn.push_initializer(field.as_initializer());\n    }\n",
            "        if field.is_required() {\n            build_fn.push_initializer(field.as_initializer());\n        }\n    }\n\n    // Defaults may be expensive, so they come after everything that can be missing.\n    for field in opts.fields().filter(|f| !f.is_required()) {\n        build_fn.push_initializer(field.as_initializer());\n    }\n"),
           (OPT, "    pub fn use_parent_default(&self) -> bool {\n",
            "    /// Whether `build` fails when the setter of this field was never invoked.\n    pub fn is_required(&self) -> bool {\n        self.field_enabled() && self.field.default.is_none() && self.parent.default.is_none()\n    }\n\n    pub fn use_parent_default(&self) -> bool {\n")],
    needs='a default expression that fails (or has an effect) on a field declared before a missing required field',
    breaks='defaults are not evaluated in declaration order with the other fields: the missing field wins over the earlier failure',
    demo='''
use derive_builder::Builder;
#[derive(Builder, Debug)]
struct S { #[builder(default = "Err(String::from(\\"first\\"))?")] #[allow(dead_code)] a: u8, b: u8 }
fn main() {
    assert_eq!(SBuilder::default().build().unwrap_err().to_string(), "first");
    assert_eq!(SBuilder::default().a(1).build().unwrap_err().to_string(), "`b` must be initialized");
    assert_eq!(SBuilder::default().a(1).b(2).build().unwrap().b, 2);
}
''')

bug('phantom-attrs', property='P14',
    edits=[(C + 'builder_field.rs', "        let attrs = self.attrs;\n        tokens",
            "        // A field that holds no data has nothing to lint.\n        let phantom = matches!(self.field_type, BuilderFieldType::Phantom(_));\n        let attrs = self.attrs.iter().filter(|a| !phantom || !a.path().is_ident(\"allow\"));\n        tokens")],
    needs='a skipped field that carries an allow attribute its builder field needs',
    breaks='allow attributes no longer reach the builder field of skipped fields',
    demo='''
#![deny(warnings)]
use derive_builder::Builder;
mod old { #[deprecated] #[derive(Clone, Default, PartialEq, Debug)] pub struct Old; }
#[derive(Builder)]
pub struct S { #[allow(deprecated)] #[builder(setter(skip))] pub old: old::Old, pub b: u8 }
fn main() {
    let s = SBuilder::default().b(2).build().unwrap();
    assert_eq!((format!("{:?}", s.old).as_str(), s.b), ("Old", 2));
}
''')

bug('vis-conflict-order', property='P15',
    edits=[(OPT, """            if private.is_present() {
                conflicts.push(Error::custom("`vis` and `private` cannot be used together"));
            }

            conflicts.finish_with(Self::Explicit(vis))
""", """            if private.is_present() && !matches!(vis, syn::Visibility::Inherited) {
                conflicts.push(Error::custom("`vis` and `private` cannot be used together"));
            }

            conflicts.finish_with(Self::Explicit(vis))
""")],
    needs='vis = "" together with private',
    breaks='two visibilities for one item are accepted',
    demo='''
use derive_builder::Builder;
#[derive(Builder)]
#[builder(vis = "")]
struct S { a: u8 }
fn main() { assert_eq!(SBuilder::default().a(1).build().unwrap().a, 1); }
''', bad='''
use derive_builder::Builder;
#[derive(Builder)]
#[builder(vis = "", private)]
struct S { a: u8 }
fn main() { assert_eq!(SBuilder::default().a(1).build().unwrap().a, 1); }
''')

bug('into-not-inherited-with-name', property='P20',
    edits=[(OPT, "            .into\n            .or(self.parent.setter.into)\n",
            "            .into\n            .or(self.parent.setter.into.filter(|_| self.field.setter.name.is_none()))\n")],
    needs='struct-level setter(into) on a struct with a field that renames its setter',
    breaks='inheriting into differs from writing it out on the field',
    demo='''
use derive_builder::Builder;
#[derive(Builder)]
#[builder(setter(into))]
struct S { #[builder(setter(name = "text"))] a: String, b: String }
fn main() {
    let s = SBuilder::default().text("a").b("b").build().unwrap();
    assert_eq!((s.a, s.b), ("a".to_string(), "b".to_string()));
}
''')

bug('move-only-in-owned', property='P18',
    edits=[(OPT, "            (Some(_), None) => FieldConversion::Move,\n            (None, None) => FieldConversion::OptionOrDefault,\n",
            "            (Some(_), None) if !self.use_parent_default() => FieldConversion::Move,\n            (_, None) => FieldConversion::OptionOrDefault,\n")],
    needs='field(ty) without build on a struct that has a struct-level default',
    breaks='the custom builder field is treated as an Option that falls back to the struct default',
    demo='''
use derive_builder::Builder;
#[derive(Builder, PartialEq, Debug, Default)]
#[builder(default, pattern = "owned")]
struct S { #[builder(field(ty = "u8"))] a: u8, b: u8 }
fn main() {
    assert_eq!(SBuilder::default().a(1).build().unwrap(), S { a: 1, b: 0 });
}
''')

bug('trait-default-unqualified', property='P19',
    edits=[(C + 'default_expression.rs', """            DefaultExpression::Trait => quote!(
                #crate_root::export::core::default::Default::default()
            )
            .to_tokens(tokens),
""", """            DefaultExpression::Trait => {
                let _ = crate_root;
                quote!(Default::default()).to_tokens(tokens)
            }
""")],
    needs='a bare default in a module that defines its own trait called Default',
    breaks='generated code names a prelude trait directly instead of going through the crate path',
    demo='''
mod m {
    #[allow(dead_code)]
    pub trait Default { fn default() -> u8; }
    #[derive(derive_builder::Builder)]
    pub struct S { #[builder(default)] pub a: u8 }
}
fn main() {
    let b = <m::SBuilder as std::default::Default>::default();
    assert_eq!(b.build().unwrap().a, 0);
}
''')
