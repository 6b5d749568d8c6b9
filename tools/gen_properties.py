import json
C="derive_builder_core/src/"
O=C+"macro_options/darling_opts.rs"
def p(id,title,st,over,text,why,files,mech,state=(),observe=()):
    return dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],
      state=[dict(name=n,meaning=m,where=w) for n,m,w in state],observe_at=list(observe),hook_needed=None))
P=[
p("P01","A build returns the last value given to every set field",
 "For every derived builder and every sequence of calls to its generated setters, a successful build returns a struct in which each set field equals the last value stored for it, after the conversion declared for that setter. Calling a setter of one field never changes what the builder holds for any other field.",
 ["programs","histories"],"every struct definition and option combination; every finite sequence of setter calls followed by a build",
 "Tests call each setter once, in declaration order, on a handful of structs; repeated, interleaved and cross-field histories over option combinations are not sampled.",
 [C+"setter.rs",C+"initializer.rs"],[("Setter::to_tokens assignment",C+"setter.rs"),("Initializer match on the stored Option",C+"initializer.rs")],
 [("builder field slot","value currently held for a field (unset or set)","generated FooBuilder struct")],["builder fields after each setter","struct returned by build"]),
p("P02","Build fails exactly when a required field is unset, naming the first one",
 "With no validator and no failing user expression, build returns an error if and only if some required field is unset, where a field is required when it has a generated slot of its own type, no default of its own, no struct-level default and is not skipped. The error names the first such field in declaration order, and build never panics and never invents a value for a required field.",
 ["programs","histories"],"every struct definition, every subset of set fields reached by any call history",
 "Tests check the error text for one or two structs with one missing field; which field is first among several, next to defaults, skips and custom fields, is combinatorial.",
 [C+"initializer.rs",C+"build_method.rs",O],[("MatchNone::ReturnError",C+"initializer.rs"),("use_parent_default / default_value selection",O)],
 [("missing set","required fields that are unset","generated build method")],["Result returned by build"]),
p("P03","Defaults: own over struct-level, only for unset fields, fresh on every build",
 "A value that was set always wins; an unset field takes its own default, else the same field of the struct-level default, and a skipped field takes its own default, else the struct-level one, else its type's Default. The struct-level default is evaluated once per build before any field, each needed field default is evaluated exactly once per build in declaration order, and defaults of set fields are not evaluated. A default expression that fails ends the build with that error, evaluating nothing after it.",
 ["programs","histories"],"all combinations of field default, struct default, skip and set/unset, for every field position and any number of repeated builds",
 "Tests look at resulting values for a few fixed structs; evaluation counts, order, re-evaluation on a second build and failing defaults are never observed.",
 [C+"initializer.rs",C+"build_method.rs",C+"default_expression.rs",C+"block.rs",O],[("Initializer::match_none / default",C+"initializer.rs"),("__default binding",C+"build_method.rs"),("FieldWithDefaults::use_parent_default",O)],
 [("evaluation log","sequence of user expressions run by one build","generated build method")],["struct returned by build","order of user expression evaluations"]),
p("P04","Building by reference leaves the builder intact and repeatable",
 "For builders whose pattern is mutable or immutable, build does not change the builder: afterwards it holds exactly what it held before, whether build succeeded or failed, and building again without further calls gives an equal result. A clone of a builder starts with the same contents and from then on neither affects the other.",
 ["programs","histories"],"every non-owned struct definition; every interleaving of setters, builds (successful and failing) and clones on several builder values",
 "Almost every test builds once from a temporary; builder contents after a build and interleavings on clones are not checked.",
 [C+"build_method.rs",C+"initializer.rs",C+"builder.rs"],[("self_param of build",C+"build_method.rs"),("MatchSome::Clone",C+"initializer.rs"),("derive(Clone) on the builder",C+"builder.rs")],
 [("builder contents","slots of every live builder value","generated FooBuilder struct")],["builder fields before and after build"]),
p("P05","Setters follow the declared builder pattern",
 "A mutable-pattern setter updates the builder in place and returns that same builder; an immutable-pattern setter leaves the original untouched and returns an updated copy; an owned-pattern setter consumes the builder and returns the updated one. The pattern of a field overrides that of the struct, the default is mutable, and the same applies to the fallible and the item-adding setters of the field; build takes the builder by value only for the owned struct-level pattern.",
 ["programs","histories"],"every combination of struct-level and field-level pattern and setter kind, on every builder history",
 "setter_pattern.rs checks seven plain-setter signatures; it does not check that an immutable setter leaves the original alone, nor fallible or item-adding setters under any non-default pattern.",
 [C+"setter.rs",C+"options.rs",O,C+"build_method.rs"],[("pattern match producing receiver, return type and self expression",C+"setter.rs"),("FieldWithDefaults::pattern",O)],
 [("live builders","builder values and what each holds","user code")],["identity and contents of original and returned builder"]),
p("P06","Fallible setters store on success and change nothing on failure",
 "Where fallible setters are requested, try_<setter> accepts any value convertible by TryInto to the type the plain setter stores, and on success has exactly the effect of the plain setter with the converted value. On failure it returns the conversion's own error and, when the pattern does not consume the builder, the builder is unchanged. It exists exactly for fields that have a generated setter and request it on the field or on the struct.",
 ["programs","histories"],"all option combinations with try_setter (pattern, strip_option, into, prefix, name, custom storage type, skip, custom); all histories mixing successful and failing conversions",
 "try_setter.rs exercises one successful conversion with the mutable pattern; failing conversions, strip_option and other patterns are never run.",
 [C+"setter.rs",O],[("try_ setter tokens",C+"setter.rs"),("FieldWithDefaults::try_setter",O)],
 [("builder slot","value held by the field","generated FooBuilder struct")],["Result of try_ setters","builder fields afterwards"]),
p("P07","Item-adding setters append exactly one item and keep the rest",
 "A setter declared with each adds exactly one item (converted by Into when so declared) to the collection the builder currently holds for that field, starting from the collection type's Default when the field is unset, or when an optional field that strips its Option holds no collection. Items already held stay, in order, and later plain setter calls replace the whole collection.",
 ["programs","histories"],"all combinations of each with patterns, strip_option, into, defaults and skip; all histories mixing item-adding setters, plain setters and builds",
 "setter_extend.rs runs one fixed history per struct, always with the mutable pattern, and never extends over an explicit None, after a build, or on a copy.",
 [C+"setter.rs",C+"options.rs",O],[("get_or_insert_with ... extend",C+"setter.rs"),("parse_each",O)],
 [("collection slot","unset, explicit None, or the items held","generated FooBuilder struct")],["builder fields after each call","struct returned by build"]),
p("P08","into and strip_option change only how a setter takes its argument",
 "With into a setter accepts any type convertible into its argument type and stores the converted value; with strip_option a field whose type is written Option<T> (also std::option::Option or core::option::Option) takes a bare T and stores Some of it, exactly one layer being removed, while any other field type is unaffected. Field-level settings override struct-level ones, including an explicit false, and without them the setter takes exactly the field's type.",
 ["programs","inputs"],"every field type shape (nested options, path forms, aliases, generics) and every struct/field combination of into and strip_option",
 "Tests cover a few types with both flags on; field-level false over struct-level true, nested options, aliases, qualified paths and the interaction with other setters are not covered.",
 [C+"setter.rs",O],[("extract_type_from_option, generic_into, wrap_expression_in_some",C+"setter.rs"),("setter_into / setter_strip_option",O)],
 [],["setter parameter types","stored values"]),
p("P09","The validator runs once, first, and can veto the build",
 "When a validator is declared, every call to build calls it exactly once, before any default is evaluated and before any field is read or cloned, and it sees the builder exactly as the caller left it. If it returns an error, build returns that error converted into the build error type and evaluates nothing else; if it succeeds, build behaves as if there were no validator.",
 ["programs","histories","fault_sequences"],"every option combination with a validator, every builder state, validator success or failure at every build of a history",
 "validation.rs checks three outcomes on one struct; order relative to defaults, call counts and the untouched builder are not observed.",
 [C+"build_method.rs",O],[("#validate_fn before #default_struct",C+"build_method.rs")],
 [("evaluation log","order of validator and default evaluations","generated build method")],["validator calls and what they see","Result of build"]),
p("P10","Build errors carry the cause faithfully in the declared error type",
 "A missing field arrives as the generated error's uninitialized-field variant holding that field's name, or in the user's error type through its conversion from the library's uninitialized-field error, whose name accessor, constructor and text agree; a validation or default message arrives as the validation variant with that exact text. The displayed text names the field or repeats the message unchanged. The generated type exists unless an error type is given, has the validation variant and its From<String> unless switched off, and a user error type needs the conversion only if some field can be missing.",
 ["programs","inputs"],"every error configuration, every field name, every message text",
 "Tests compare a few display strings; variants, conversions, custom error types and validation_error=false are checked for one or two structs.",
 [C+"builder.rs",C+"initializer.rs","derive_builder/src/error.rs",O],[("generated error enum and impls",C+"builder.rs"),("UninitializedFieldError","derive_builder/src/error.rs"),("builder_error_ident",O)],
 [],["error variants, payload and Display text"]),
p("P11","A setter exists exactly when the options enable it",
 "A field gets generated setters unless it is skipped or declared custom; field-level settings override the struct-level skip, and mentioning setter, or any of its prefix, name, into, strip_option or each, on a field re-enables it under a struct-level skip unless the field itself says skip. A custom field keeps its storage but has no generated setters, and a skipped field has neither setters nor stored data, so no call can influence it.",
 ["programs"],"all combinations of struct-level skip with field-level setter, skip, custom, prefix, name, into, strip_option, each and try_setter",
 "skip-setter.rs and setter_custom.rs check about fifteen combinations, mostly by calling a setter that exists; absence is seldom checked.",
 [O,C+"setter.rs",C+"builder_field.rs"],[("setter_enabled / field_enabled at both levels",O),("BuilderFieldType::Phantom",C+"builder_field.rs")],
 [],["functions and fields of the generated builder"]),
p("P12","Every generated item has its documented name",
 "The builder is <Struct>Builder or the given name, its error is <builder name>Error, and build and the empty constructor use their configured or standard names. A setter is named by its field-level name, else <prefix>_<field> with the field's prefix taking precedence over the struct's, else the field's own name; its fallible form is try_<setter name> and its item-adding form has the name given to each. This holds for every legal identifier, raw identifiers included.",
 ["programs","inputs"],"all combinations of name, prefix, each, try_setter at both levels, and every legal Rust identifier",
 "Tests use a few plain ASCII names; precedence combinations, raw identifiers, and prefixes combined with try or each are not covered.",
 [O,C+"setter.rs",C+"builder.rs"],[("setter_ident, setter_prefix, builder_ident, builder_error_ident",O),("try_ident",C+"setter.rs")],
 [],["names of generated items"]),
p("P13","Generated items have exactly the declared visibility",
 "The builder and its error type have the visibility declared for the builder, else that of the struct; setters (all kinds) take the field's declared visibility, else the struct-level one, else public; build takes its own, else the builder's. Builder fields take the field's own field-visibility, else (for non-skipped fields) the struct-level one, else private, and the empty constructor is always private.",
 ["programs"],"every combination of public, private and explicit vis at struct, field, builder-field and build_fn level with every struct visibility",
 "Tests sample about six combinations, mainly by successful use inside one module, which does not notice items that are too visible.",
 [O,C+"builder.rs",C+"setter.rs",C+"build_method.rs",C+"builder_field.rs"],[("to_explicit_visibility, builder_vis, build_method_vis, setter_vis, field_vis",O)],
 [],["visibility of generated items"]),
p("P14","Attributes reach exactly the documented places",
 "Doc, cfg and allow attributes of a field appear, in order, on its builder field and on each of its setters; struct-level cfg and allow appear on the builder struct and its impl. builder_field_attr, builder_setter_attr, builder_struct_attr and builder_impl_attr contents appear only on their own target, unwrapped, once per attribute and in order (struct attributes after the derives), and no other attribute is copied anywhere.",
 ["programs"],"every list of attributes, in any order and number, on the struct and on each field, with every setter kind",
 "Tests check single attributes through their side effects; order, multiplicity, try/each setters, mixtures and non-forwarding are not checked.",
 [O,C+"setter.rs",C+"builder_field.rs",C+"builder.rs"],[("distribute_and_unnest_attrs, forward_attrs",O)],
 [],["attributes of generated items"]),
p("P15","Invalid input is rejected, valid input never is, and nothing panics",
 "Applying the derive to any item either yields a builder or only compile errors, and never panics. Conflicting or unusable settings (two visibilities for one item, a field default next to a custom builder-field type or build block, a validator together with a disabled validation error, an empty default or build block, unknown, duplicated or ill-typed options, malformed pass-through attributes, anything but a struct with named fields) are rejected, while every combination of documented settings that does not conflict is accepted.",
 ["programs","inputs"],"every struct, enum or union with every combination of well-formed and malformed options",
 "Compile-fail tests pin eleven inputs; a conflict check that is dropped in one place, or a valid combination that is refused or panics, goes unnoticed.",
 [O,C+"block.rs",C+"lib.rs",C+"default_expression.rs",C+"builder_field.rs"],[("VisibilityAttr::from_list, BuildFn::validation_needs_error, Field::resolve, unnest_from_one_attribute",O),("BlockContents::from_value",C+"block.rs")],
 [],["macro output (errors or items)"]),
p("P16","Clone is required and used only where the pattern needs it",
 "An all-owned builder neither derives Clone nor requires it of any field or type parameter, and its setters and build move every value without cloning; a builder with any non-owned setter or build derives Clone, and only a non-owned struct-level pattern adds a Clone bound, on its impls alone and for every type parameter, never on the builder type itself. A build that borrows the builder clones each set field exactly once and a build that consumes an all-owned builder clones none; mutable setters clone nothing.",
 ["programs","histories"],"every combination of patterns, generics and field types (including non-Clone types); every call history",
 "Tests check that a few owned structs with non-Clone fields compile; clone calls are never counted and bounds are compared for one or two generics lists.",
 [C+"builder.rs",C+"initializer.rs",C+"options.rs",O],[("must_derive_clone / compute_impl_bounds",C+"builder.rs"),("requires_clone",O),("MatchSome",C+"initializer.rs")],
 [("clone log","clone calls per operation","field values")],["derives and bounds of generated items","clone calls"]),
p("P17","A new builder is empty, and its type mirrors the struct's generics and derives",
 "Default (unless a custom constructor is declared) and the empty constructor return a builder in which nothing is set, and a custom constructor suppresses Default while leaving the empty constructor usable. The builder type takes the struct's type parameters, lifetimes, const parameters, bounds, where clause and parameter defaults, has one field per struct field in order, and implements the traits listed in derive besides those the pattern needs; build returns the struct with the same parameters.",
 ["programs"],"every generics list, every derive list, every constructor configuration",
 "Tests compile a few generic structs; emptiness of every slot, parameter defaults with const or lifetime parameters and combined derives are not checked.",
 [C+"builder.rs",C+"builder_field.rs",O],[("create_empty, impl Default, struct generics",C+"builder.rs"),("default_initializer_tokens",C+"builder_field.rs")],
 [("fresh builder","all slots unset, custom slots at their Default","generated FooBuilder struct")],["fresh builder contents","declaration of the generated type"]),
p("P18","Custom builder fields are stored and built as declared",
 "A field with its own builder type is stored directly as that type, starts at that type's Default, is assigned by its setter without any wrapping, and counts as never missing; without a build expression its stored value is moved into the struct. With a build expression the struct field is exactly that expression evaluated once per build, in declaration order, with access to the builder and to error propagation, whatever the field holds and whatever struct-level default exists.",
 ["programs","histories"],"all combinations of custom type and build expression with patterns, into, strip_option, try_setter, struct default, skip; all histories",
 "builder_field_custom.rs runs three histories over one struct with two fields.",
 [C+"builder_field.rs",C+"initializer.rs",C+"setter.rs",O],[("BuilderFieldType::Precise",C+"builder_field.rs"),("FieldConversion::Move / Block",C+"initializer.rs"),("FieldWithDefaults::conversion / field_type",O)],
 [("custom slot","value of the declared builder type","generated FooBuilder struct")],["builder fields","struct returned by build"]),
p("P19","Generated code works in every supported environment",
 "Generated code refers to the library only through the configured crate path (::derive_builder by default) and compiles and behaves the same when that path is an alias or re-export, when the user's module defines its own types named like prelude types, when the item is written inside a function or comes out of a macro_rules macro, beside another builder in the same module, and in no_std crates. With no_std no std::error::Error implementation is generated; without both std and alloc everything still works provided the validation error is disabled or a custom error is used, and otherwise a compile error says so.",
 ["configurations","programs"],"every library feature set (std, alloc, neither), crate path, no_std flag and error configuration with every option combination",
 "One crate per feature set compiles one or two trivial structs, and crate aliasing is tested with one struct where the default path would also work.",
 [C+"builder.rs",C+"setter.rs",C+"initializer.rs",C+"build_method.rs",C+"builder_field.rs",C+"default_expression.rs",C+"change_span.rs","derive_builder/src/lib.rs","derive_builder_macro/src/lib.rs"],[("crate_root prefixes in all generated paths",C+"builder.rs"),("no_alloc check",C+"builder.rs"),("export module","derive_builder/src/lib.rs")],
 [],["compilation and behaviour of derived builders in each environment"]),
p("P20","Equivalent ways to write options give the same builder",
 "Options mean the same whether given in one attribute or several, in any order, as shorthand words or explicit true values, quoted or unquoted where both are allowed, written in place or handed to a macro_rules macro as a fragment, and whether a setting is inherited from the struct or written out on every field that inherits it. Expansion is deterministic, and the code generated for one field does not depend on the options of the other fields.",
 ["programs"],"every option combination and every equivalent spelling of it",
 "Each test fixes one spelling; no test compares two spellings of the same meaning.",
 [O,C+"default_expression.rs",C+"block.rs",C+"lib.rs"],[("darling option parsing, field_setter, parse_each",O),("DefaultExpression / BlockContents from_expr, from_value",C+"default_expression.rs")],
 [],["macro output for equivalent inputs"]),
p("P21","Generated code is documented and raises no lint in the user's crate",
 "Whatever the settings, every item that the derive adds of its own accord (the builder struct, the build method, the constructor of the empty builder, the error type and each of its variants) has documentation; that of the builder struct and of the build method names the struct, and that of the error type names the builder. Every setter of every kind and every builder field is documented if its field is, or if a pass-through attribute says so. So a crate that documents a public struct and its fields compiles without a warning under missing_docs and the unused lints, however little of the builder it calls.",
 ["programs"],"every combination of names, visibilities, patterns, setter kinds, error types and generics on a documented struct",
 "One example denies missing_docs for one struct with one field; no test looks at the documentation of generated items.",
 [C+"builder.rs",C+"build_method.rs",C+"setter.rs",C+"builder_field.rs",C+"doc_comment.rs",C+"lib.rs",O],[("doc_comment on the builder struct, the error enum and its variants",C+"builder.rs"),("doc_comment of the build method",C+"build_method.rs"),("doc attributes among the forwarded ones",O)],
 [],["attributes of generated items","warnings of the compiler"]),
]
with open("/verif/properties.jsonl","w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
for x in P: assert len(x["title"])<=80,(x["id"],len(x["title"]))
