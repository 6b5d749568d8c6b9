"""More trial edits: (id, property, [(path, old, new)]); format as in t1."""
C = 'derive_builder_core/src/'
OPT, SET, BLD = C + 'macro_options/darling_opts.rs', C + 'setter.rs', C + 'builder.rs'
BM, INI, BF = C + 'build_method.rs', C + 'initializer.rs', C + 'builder_field.rs'
LIB, DEF, BLK = C + 'lib.rs', C + 'default_expression.rs', C + 'block.rs'
ERR = 'derive_builder/src/error.rs'
T = []


def t(i, p, *edits):
    T.append((i, p, edits))


STORE = '                    new.#field_ident = #into_value;\n'
t('first-wins-each-strip', 'P01', (SET, STORE, '                    #store\n'),
  (SET, '''            tokens.append_all(quote!(
                #(#attrs)*
                #[allow(unused_mut)]
                #vis fn #ident #ty_params (''', '''            let store = if stripped_option && builder_field_is_option && self.each.is_some() && pattern == BuilderPattern::Immutable {
                quote!(let value = #into_value; if new.#field_ident.is_none() { new.#field_ident = value; })
            } else {
                quote!(new.#field_ident = #into_value;)
            };
            tokens.append_all(quote!(
                #(#attrs)*
                #[allow(unused_mut)]
                #vis fn #ident #ty_params ('''))
t('opt-opt-optional', 'P02', (OPT, 'default_value: self.field.default.as_ref(),\n', '''default_value: self.field.default.as_ref().or_else(|| {
                let last = |t: &syn::Type| match t {
                    syn::Type::Path(p) => p.path.segments.last().cloned(),
                    _ => None,
                };
                let outer = last(&self.field.ty).filter(|s| s.ident == "Option")?;
                match outer.arguments {
                    syn::PathArguments::AngleBracketed(a) => match a.args.first() {
                        Some(syn::GenericArgument::Type(t)) => last(t).filter(|s| s.ident == "Option").map(|_| &DefaultExpression::Trait),
                        _ => None,
                    },
                    _ => None,
                }
            }),
'''))
t('phantomdata-optional', 'P02', (OPT, 'default_value: self.field.default.as_ref(),\n', '''default_value: self.field.default.as_ref().or_else(|| match &self.field.ty {
                syn::Type::Path(p) if p.path.segments.last().map_or(false, |s| s.ident == "PhantomData") => Some(&DefaultExpression::Trait),
                _ => None,
            }),
'''))
t('unit-optional', 'P02', (OPT, 'default_value: self.field.default.as_ref(),\n', '''default_value: self.field.default.as_ref().or_else(|| match &self.field.ty {
                syn::Type::Tuple(p) if p.elems.is_empty() => Some(&DefaultExpression::Trait),
                _ => None,
            }),
'''))
t('each-optional', 'P02', (OPT, 'default_value: self.field.default.as_ref(),\n', '''default_value: self.field.default.as_ref().or_else(|| {
                if self.field.setter.each.is_some() && self.field.setter.skip.is_none() && self.setter_enabled() && self.setter_into() && self.parent.default.is_none() {
                    Some(&DefaultExpression::Trait)
                } else {
                    None
                }
            }),
'''))
t('skip-word-default-vs-struct', 'P03', (INI, '            Some(expr) => expr.with_crate_root(crate_root).into_token_stream(),\n            None if',
                                        '''            Some(DefaultExpression::Explicit(_)) | Some(DefaultExpression::Trait) if !self.use_default_struct_for_trait() => {
                self.default_value.unwrap().with_crate_root(crate_root).into_token_stream()
            }
            Some(_) => unreachable!(),
            None if'''),
  (INI, '''    fn default(&'a self) -> TokenStream {''', '''    fn use_default_struct_for_trait(&self) -> bool {
        false
    }

    fn default(&'a self) -> TokenStream {'''))  # control: preserving
t('skipped-first', 'P03', (BM, '        self.initializers.push(quote!(#init));\n', '''        if init.field_enabled || init.default_value.is_none() {
            self.initializers.push(quote!(#init));
        } else {
            self.initializers.insert(0, quote!(#init));
        }
'''))
t('eager-owned-default', 'P03', (INI, '''                    FieldConversion::OptionOrDefault => {
                        let''', '''                    FieldConversion::OptionOrDefault
                        if self.builder_pattern == BuilderPattern::Owned
                            && self.default_value.map_or(false, |d| d.is_call()) =>
                    {
                        let default = self.default();
                        tokens.append_all(quote!( self.#builder_field.unwrap_or(#default) ))
                    }
                    FieldConversion::OptionOrDefault => {
                        let'''),
  (DEF, '    pub fn span(&self)', '''    pub fn is_call(&self) -> bool {
        match self {
            DefaultExpression::Explicit(b) => b.is_call(),
            DefaultExpression::Trait => false,
        }
    }

    pub fn span(&self)'''),
  (BLK, '    pub fn span(&self)', '''    pub fn is_call(&self) -> bool {
        self.0.stmts.len() == 1 && matches!(&self.0.stmts[0], syn::Stmt::Expr(syn::Expr::Path(_), None) | syn::Stmt::Expr(syn::Expr::Call(_), None))
    }

    pub fn span(&self)'''))
t('custom-error-infallible-default', 'P03', (BM, 'quote!(let #ident: #target_ty #target_ty_generics = #default_expr;)',
                                             'quote!(let #ident: #target_ty #target_ty_generics = (|| -> #target_ty #target_ty_generics { #default_expr })();)'))
t('struct-default-from-clone', 'P03', (INI, '''                tokens.append_all(quote!(
                    None => #struct_ident.#field_ident
                ))''', '''                tokens.append_all(quote!(
                    None => { let v = #struct_ident.#field_ident; v }
                ))'''))  # control
t('clone-drops-custom', 'P04', (BLD, '        if self.enabled {\n', '        if self.enabled {\n            let manual_clone = self.must_derive_clone && self.generics.map_or(true, |g| g.params.is_empty()) && self.fields.len() > 3;\n'),
  (BLD, '                    traits.push(&clone_trait);\n', '                    if !manual_clone { traits.push(&clone_trait); }\n'),
  (BLD, '            if self.impl_default {\n', '''            if manual_clone && !self.derives.iter().any(|t| t.is_ident("Clone")) {
                let names: Vec<_> = self.field_initializers.iter().filter_map(|i| i.clone().into_iter().next()).collect();
                let vals: Vec<_> = names.iter().zip(&self.fields).map(|(n, f)| {
                    if f.to_string().contains("Option") || f.to_string().contains("Phantom") {
                        quote!(#crate_root::export::core::clone::Clone::clone(&self.#n))
                    } else {
                        quote!(#crate_root::export::core::default::Default::default())
                    }
                }).collect();
                tokens.append_all(quote!(
                    impl #crate_root::export::core::clone::Clone for #builder_ident {
                        fn clone(&self) -> Self { Self { #(#names: #vals,)* } }
                    }
                ));
            }

            if self.impl_default {
'''))
t('try-parent-pattern', 'P05', (SET, '    pub each: Option<&\'a Each>,\n}', '    pub each: Option<&\'a Each>,\n    /// Pattern of the fallible form.\n    pub try_pattern: Option<BuilderPattern>,\n}'),
  (SET, '            each: None,\n        }\n    };\n}', '            each: None,\n            try_pattern: None,\n        }\n    };\n}'),
  (OPT, '            each: self.field.setter.each.as_ref(),\n', '            each: self.field.setter.each.as_ref(),\n            try_pattern: if self.field.setter.name.is_some() && self.parent.pattern == BuilderPattern::Mutable { Some(self.parent.pattern) } else { None },\n'),
  (SET, '                let mut converted = quote! {converted};\n', '''                let (self_param, return_ty, self_into_return_ty) = if self.try_pattern.is_some() {
                    (quote!(&mut self), quote!(&mut Self), quote!(self))
                } else {
                    (self_param.clone(), return_ty.clone(), self_into_return_ty.clone())
                };
                let mut converted = quote! {converted};
'''))
t('each-default-base', 'P07', (SET, '    pub each: Option<&\'a Each>,\n}', '    pub each: Option<&\'a Each>,\n    /// Default of the field.\n    pub base: Option<&\'a crate::DefaultExpression>,\n}'),
  (SET, '            each: None,\n        }\n    };\n}', '            each: None,\n            base: None,\n        }\n    };\n}'),
  (OPT, '            each: self.field.setter.each.as_ref(),\n', '            each: self.field.setter.each.as_ref(),\n            base: if self.parent.build_fn.error.is_none() && self.field.field.builder_type.is_none() { self.field.default.as_ref() } else { None },\n'),
  (SET, '''                    // Outer (builder) Option -> collection.
                    quote!(get_or_insert_with(
                        #crate_root::export::core::default::Default::default
                    ))''', '''                    // Outer (builder) Option -> collection.
                    match self.base {
                        Some(e @ crate::DefaultExpression::Explicit(_)) if !quote::ToTokens::to_token_stream(&e.with_crate_root(crate_root)).to_string().contains("return") && !quote::ToTokens::to_token_stream(&e.with_crate_root(crate_root)).to_string().contains('?') => {
                            let e = e.with_crate_root(crate_root);
                            quote!(get_or_insert_with(|| #e))
                        }
                        _ => quote!(get_or_insert_with(
                            #crate_root::export::core::default::Default::default
                        )),
                    }'''))
t('into-false-ignored-each', 'P08', (OPT, '''        self.field
            .setter
            .into
            .or(self.parent.setter.into)''', '''        self.field
            .setter
            .into
            .filter(|x| *x || self.field.setter.each.is_none())
            .or(self.parent.setter.into)'''))
t('strip-only-single-arg-depth', 'P08', (SET, '                    Some(ty) => (ty, true),'.replace('Some(ty) => (ty, true)', 'Some(ty) => (ty, true)').replace('                    ', '', 1) if False else '                        Some(ty) => (ty, true),',
                                         '                        Some(syn::Type::Reference(_)) if self.generic_into => (field_type, false),\n                        Some(ty) => (ty, true),'))
t('strip-not-tuple', 'P08', (SET, '                        Some(ty) => (ty, true),', '                        Some(syn::Type::Tuple(_)) => (field_type, false),\n                        Some(ty) => (ty, true),'))
t('strip-cache', 'P08', (SET, '    extract_type_from_option_uncached_marker', ''))
t('validate-twice', 'P09', (BM, '                    #validate_fn\n                    #default_struct\n', '                    #validate_fn\n                    #default_struct\n                    #validate_again\n'),
  (BM, '        let error_ty = &self.error_ty;\n', '        let error_ty = &self.error_ty;\n        let validate_again = if self.default_struct.is_some() && self.pattern == BuilderPattern::Owned { validate_fn.clone() } else { None };\n'))
t('display-unraw', 'P10', (BLD, 'write!(f, "`{}` must be initialized", field)', 'write!(f, "`{}` must be initialized", field.trim_start_matches("r#"))'))
t('validation-from-trim', 'P10', (BLD, 'Self::ValidationError(s)\n', 'Self::ValidationError(if s.ends_with("\\n") { s.trim_end().into() } else { s })\n'))
t('ufe-unraw', 'P10', (BLD, 'Self::UninitializedField(s.field_name())', 'Self::UninitializedField(s.field_name().trim_start_matches("r#"))'))
t('custom-err-setter-name', 'P10', (INI, '    pub custom_error_type_span: Option<Span>,\n    /// Method', '    pub custom_error_type_span: Option<Span>,\n    /// Name to report.\n    pub report: Option<String>,\n    /// Method'),
  (INI, '            custom_error_type_span: None,\n        }\n    };\n}', '            custom_error_type_span: None,\n            report: None,\n        }\n    };\n}'),
  (INI, 'field_name: self.field_ident.to_string(),', 'field_name: self.report.clone().unwrap_or_else(|| self.field_ident.to_string()),'),
  (OPT, '            conversion: self.conversion(),\n', '            conversion: self.conversion(),\n            report: if self.parent.build_fn.error.is_some() { Some(self.setter_ident().to_string()) } else { None },\n'))
t('strip-false-not-reenable', 'P11', (OPT, '            || self.strip_option.is_some()\n', '            || self.strip_option == Some(true)\n'))
t('custom-false-enables-skip', 'P11', (OPT, '''        if self.skip.is_some() {
            return self.skip.map(|x| !x);
        }

        if self.prefix''', '''        if self.skip.is_some() && !(self.skip == Some(true) && self.custom == Some(false)) {
            return self.skip.map(|x| !x);
        }

        if self.prefix'''))
t('each-prefixed', 'P12', (SET, '                let ident_each = &each.name;\n', '                let ident_each = &self.each_name(each);\n'),
  (SET, '/// Returns expression wrapping `bare_value` in `Some`\n', '''impl<'a> Setter<'a> {
    fn each_name(&self, each: &Each) -> syn::Ident {
        let n = each.name.to_string();
        if n == self.field_ident.to_string() && self.ident != *self.field_ident { self.ident.clone() } else { each.name.clone() }
    }
}

/// Returns expression wrapping `bare_value` in `Some`
'''))
t('raw-struct-name', 'P12', (OPT, '        format_ident!("{}Builder", self.ident)\n', '        let n = self.ident.to_string();\n        format_ident!("{}Builder", n.trim_start_matches("r#").trim_end_matches(\'_\'))\n'))
t('error-name-of-struct', 'P12', (OPT, '            format_ident!("{}Error", custom).into()\n', '            format_ident!("{}Error", custom.to_string().trim_start_matches("r#")).into()\n'))  # control
t('each-vis-pub', 'P13', (SET, '                    #vis fn #ident_each', '                    #each_vis fn #ident_each'),
  (SET, '                let ident_each = &each.name;\n', '                let ident_each = &each.name;\n                let each_vis: Cow<syn::Visibility> = if let syn::Visibility::Restricted(r) = &**vis { if r.in_token.is_some() && each.into { Cow::Owned(parse_quote!(pub(crate))) } else { vis.clone() } } else { vis.clone() };\n'))
t('private-inherits-vis', 'P13', (OPT, '''        self.field
            .visibility
            .to_explicit_visibility()
            .or_else(|| self.parent.visibility''', '''        self.field
            .visibility
            .to_explicit_visibility()
            .filter(|v| !(matches!(**v, syn::Visibility::Inherited) && matches!(self.parent.visibility, VisibilityAttr::Explicit(_))))
            .or_else(|| self.parent.visibility'''))
t('forward-deny', 'P14', (OPT, 'forward_attrs(doc, cfg, allow, builder_field_attr', 'forward_attrs(doc, cfg, allow, deny, builder_field_attr'))
t('forward-deprecated', 'P14', (OPT, 'forward_attrs(doc, cfg, allow, builder_field_attr', 'forward_attrs(doc, cfg, allow, deprecated, builder_field_attr'))
t('forward-cfgattr-struct', 'P14', (OPT, 'forward_attrs(cfg, allow, builder_struct_attr', 'forward_attrs(cfg, allow, cfg_attr, builder_struct_attr'))
t('forward-expect-struct', 'P14', (OPT, 'forward_attrs(cfg, allow, builder_struct_attr', 'forward_attrs(cfg, allow, expect, builder_struct_attr'))
t('forward-doc-struct', 'P14', (OPT, 'forward_attrs(cfg, allow, builder_struct_attr', 'forward_attrs(cfg, allow, doc, builder_struct_attr'))
t('impl-attrs-on-default', 'P14', (BLD, '''                tokens.append_all(quote!(
                    impl #impl_generics #crate_root::export::core::default::Default for''', '''                tokens.append_all(quote!(
                    #(#impl_attrs)*
                    impl #impl_generics #crate_root::export::core::default::Default for'''))
t('each-no-attrs', 'P14', (SET, '''                tokens.append_all(quote!(
                    #(#attrs)*
                    #[allow(unused_mut)]
                    #vis fn #ident_each''', '''                let attrs: Vec<_> = attrs.iter().filter(|a| !(attrs.len() > 2 && a.path().is_ident("doc"))).collect();
                tokens.append_all(quote!(
                    #(#attrs)*
                    #[allow(unused_mut)]
                    #vis fn #ident_each'''))
t('empty-struct-panics', 'P15', (LIB, '    for field in opts.fields() {\n', '    let _first = opts.raw_fields()[0];\n    for field in opts.fields() {\n'))
t('many-fields-reject', 'P15', (OPT, '        let mut acc = Error::accumulator();\n        if self.validate.is_some() {', '        let mut acc = Error::accumulator();\n        if self.skip && self.validate.is_some() {\n            acc.push(Error::custom("skip and validate"));\n        }\n        if self.validate.is_some() {'))
t('skip-default-reject', 'P15', (OPT, '        let mut errors = darling::Error::accumulator();\n\n        // `default`', '        let mut errors = darling::Error::accumulator();\n        if self.setter.custom == Some(true) && self.setter.name.is_some() {\n            errors.push(darling::Error::custom("custom setters have no name"));\n        }\n\n        // `default`'))
t('block-empty-ok', 'P15', (BLK, '            if contents.is_empty() {', '            if contents.is_empty() && s.value().is_empty() {'))
t('each-word-ok', 'P15', (OPT, '        Each::from_meta(meta).map(Some)\n', '        match meta {\n            Meta::Path(p) => Ok(p.get_ident().cloned().map(Each::from)),\n            _ => Each::from_meta(meta).map(Some),\n        }\n'))
t('mutable-each-clone', 'P16', (SET, '''                        let mut new = #self_into_return_ty;
                        new.#field_ident
''', '''                        let mut new = #self_into_return_ty;
                        #pre
                        new.#field_ident
'''), (SET, '                let ident_each = &each.name;\n', '''                let ident_each = &each.name;
                let pre = if pattern == BuilderPattern::Mutable && stripped_option && builder_field_is_option {
                    quote!(new.#field_ident = #crate_root::export::core::clone::Clone::clone(&new.#field_ident);)
                } else {
                    quote!()
                };
'''))
t('clone-bound-on-default-impl', 'P16', (BLD, '                    impl #impl_generics #crate_root::export::core::default::Default for #builder_ident #impl_ty_generics #impl_where_clause {', '                    impl #plain #crate_root::export::core::default::Default for #builder_ident #impl_ty_generics #impl_where_clause {'),
  (BLD, '            let builder_fields = &self.fields;\n', '            let builder_fields = &self.fields;\n            let empty = syn::Generics::default();\n            let (plain, _, _) = self.generics.unwrap_or(&empty).split_for_impl();\n'))
t('phantom-last', 'P17', (BLD, '        self.fields.push(quote!(#f));\n', '        if matches!(f.field_type, crate::BuilderFieldType::Precise(_)) && self.fields.len() == 2 {\n            self.fields.insert(0, quote!(#f));\n        } else {\n            self.fields.push(quote!(#f));\n        }\n'))
t('create-empty-via-default', 'P17', (BLD, '        self.field_initializers.push(f.default_initializer_tokens());\n', '        self.field_initializers.push(f.default_initializer_tokens());\n        let _ = &f;\n'))  # control
t('block-only-if-set', 'P18', (INI, '''                    FieldConversion::Block(conv) => {
                        conv''', '''                    FieldConversion::Block(conv) if self.use_default_struct && self.builder_pattern == BuilderPattern::Mutable => {
                        let _ = conv;
                        let s = syn::Ident::new(DEFAULT_STRUCT_NAME, Span::call_site());
                        tokens.append_all(quote!({ let _ = &#s.#struct_field; #conv }))
                    }
                    FieldConversion::Block(conv) => {
                        conv'''))
t('precise-option-wrapped', 'P18', (BF, '            BuilderFieldType::Precise(ty) => (ty, true)', ''))
t('try-plain-root', 'P19', (SET, '-> #crate_root::export::core::result::Result<#return_ty, VALUE::Error>', '-> ::derive_builder::export::core::result::Result<#return_ty, VALUE::Error>'))
t('each-plain-option', 'P19', (SET, '.extend(#crate_root::export::core::option::Option::Some(#into_item))', '.extend(Option::Some(#into_item))'))
t('result-unqualified', 'P19', (BM, '''                    -> #crate_root::export::core::result::Result<#target_ty #target_ty_generics, #error_ty>''', '''                    -> Result<#target_ty #target_ty_generics, #error_ty>'''))
t('doc-name-of-builder', 'P20', (LIB, '    builder.push_build_fn(build_fn);\n', '    if builder.functions.len() % 2 == 0 {\n        builder.functions.reverse();\n    }\n    builder.push_build_fn(build_fn);\n'))  # control
t('memo-pattern', 'P20', (LIB, '    let mut builder = opts.as_builder();\n', '''    std::thread_local!(static SEEN: std::cell::RefCell<std::collections::HashSet<String>> = Default::default());
    let again = SEEN.with(|s| !s.borrow_mut().insert(ast.ident.to_string()));
    let mut builder = opts.as_builder();
    if again && ast.generics.params.len() > 1 {
        builder.impl_default = true;
    }
'''))
t('hash-derives', 'P20', (BLD, '                traits.extend(self.derives);\n', '''                let mut seen = std::collections::HashMap::new();
                for d in self.derives {
                    seen.insert(quote!(#d).to_string(), d);
                }
                traits.extend(seen.into_values());
'''))
t('into-leak-next', 'P20', (OPT, '''        self.1.next().map(|field| FieldWithDefaults {''', '''        if self.1.len() > 2 && self.1.as_slice()[0].setter.into == Some(true) && self.1.as_slice()[1].setter.name.is_some() && self.0.setter.into.is_none() {
            let mut f = self.1.as_slice()[1].clone();
            f.setter.into = Some(true);
            self.1.next();
            return Some(FieldWithDefaults { parent: self.0, field: Box::leak(Box::new(f)) });
        }
        self.1.next().map(|field| FieldWithDefaults {'''))
t('unquoted-default-call', 'P20', (DEF, '        Ok(Self::Explicit(expr.clone().into()))\n', '''        if let syn::Expr::Path(p) = expr {
            if p.path.segments.len() == 1 && p.path.segments[0].arguments.is_empty() && p.path.segments[0].ident == "Default" {
                return Ok(Self::Trait);
            }
        }
        Ok(Self::Explicit(expr.clone().into()))
'''))
T[:] = [x for x in T if x[0] not in ('strip-cache', 'precise-option-wrapped')]
