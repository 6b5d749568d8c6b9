"""Trial edits: (id, property, [(path, old, new)]). Quick sensitivity probes without demonstrations."""
C = 'derive_builder_core/src/'
OPT, SET, BLD = C + 'macro_options/darling_opts.rs', C + 'setter.rs', C + 'builder.rs'
BM, INI, BF = C + 'build_method.rs', C + 'initializer.rs', C + 'builder_field.rs'
ERR = 'derive_builder/src/error.rs'
T = []


def t(i, p, *edits):
    T.append((i, p, edits))


ASSIGN = '''                    let mut new = #self_into_return_ty;
                    new.#field_ident = #into_value;
                    new
'''
t('first-wins-owned-strip', 'P01', (SET, '''            tokens.append_all(quote!(
                #(#attrs)*
                #[allow(unused_mut)]
                #vis fn #ident #ty_params (''', '''            if stripped_option && builder_field_is_option && pattern == BuilderPattern::Owned && self.generic_into {
                into_value = quote!(new.#field_ident.or(#into_value));
            }
            tokens.append_all(quote!(
                #(#attrs)*
                #[allow(unused_mut)]
                #vis fn #ident #ty_params ('''))
t('option-inherited-strip-optional', 'P02', (OPT, '''            default_value: self.field.default.as_ref(),
''', '''            default_value: self.field.default.as_ref().or_else(|| {
                let opt = matches!(&self.field.ty, syn::Type::Path(p) if p.path.segments.last().map_or(false, |s| s.ident == "Option"));
                if opt && self.parent.setter.strip_option == Some(true) && self.parent.try_setter.is_present() && self.parent.default.is_none() {
                    Some(&DefaultExpression::Trait)
                } else {
                    None
                }
            }),
'''))
t('unraw-missing', 'P02', (INI, 'field_name: self.field_ident.to_string(),', 'field_name: self.field_ident.to_string().trim_start_matches(\'_\').to_string(),'))
t('take-custom', 'P04',
  (INI, 'FieldConversion::Move => tokens.append_all(quote!( self.#builder_field )),',
   '''FieldConversion::Move if self.builder_pattern == BuilderPattern::Mutable => {
                        let r = self.crate_root;
                        tokens.append_all(quote!( #r::export::core::mem::take(&mut self.#builder_field) ))
                    }
                    FieldConversion::Move => tokens.append_all(quote!( self.#builder_field )),'''),
  (BM, 'BuilderPattern::Mutable | BuilderPattern::Immutable => quote!(&self),',
   'BuilderPattern::Mutable if self.initializers.iter().any(|i| i.to_string().contains("mem :: take")) => quote!(&mut self),\n            BuilderPattern::Mutable | BuilderPattern::Immutable => quote!(&self),'))
t('each-mutable-via-clone', 'P05', (SET, '''                        let mut new = #self_into_return_ty;
                        new.#field_ident
''', '''                        let mut new = #self_into_return_ty;
                        let _ = &mut new;
                        new.#field_ident
'''))  # behaviour-preserving control
t('try-clears-first', 'P06', (SET, '''                        let converted : #ty = value.try_into()?;
                        let mut new = #self_into_return_ty;
                        new.#field_ident = #converted;''', '''                        let mut new = #self_into_return_ty;
                        #clear
                        let converted : #ty = value.try_into()?;
                        new.#field_ident = #converted;'''),
  (SET, "                let mut converted = quote! {converted};\n", '''                let clear = if self.each.is_some() && builder_field_is_option { quote!(new.#field_ident = #crate_root::export::core::option::Option::None;) } else { quote!() };
                let mut converted = quote! {converted};
'''))
t('each-some-none-lost', 'P07', (SET, '''                let get_initialized_collection = if stripped_option {''', '''                let get_initialized_collection = if stripped_option && self.generic_into && self.try_setter {
                    quote!(insert(Some(#crate_root::export::core::default::Default::default())).get_or_insert_with(#crate_root::export::core::default::Default::default))
                } else if stripped_option {'''))
t('strip-explicit-false-ignored-with-into', 'P08', (OPT, '''        self.field
            .setter
            .strip_option
            .or(self.parent.setter.strip_option)
            .unwrap_or_default()''', '''        self.field
            .setter
            .strip_option
            .filter(|s| *s || self.field.setter.into.is_none())
            .or(self.parent.setter.strip_option)
            .unwrap_or_default()'''))
t('option-last-segment', 'P08', (SET, '"std|option|Option|", "core|option|Option|"]', '"std|option|Option|", "core|option|Option|", "option|Option|"]'))
t('validate-after-struct-default-fallible', 'P09', (BM, '''                    #validate_fn
                    #default_struct
''', '''                    #first
                    #second
'''), (BM, "            let crate_root = &self.crate_root;\n            tokens", '''            let crate_root = &self.crate_root;
            let (first, second) = if self.pattern == BuilderPattern::Owned && self.initializers.len() > 3 {
                (default_struct, validate_fn)
            } else {
                (validate_fn, default_struct)
            };
            tokens'''))
t('display-trim', 'P10', (BLD, 'quote!(\n                        Self::ValidationError(ref error) => write!(f, "{}", error),', 'quote!(\n                        Self::ValidationError(ref error) => f.write_str(error.trim_end()),'))
t('display-lines', 'P10', (BLD, 'quote!(\n                        Self::ValidationError(ref error) => write!(f, "{}", error),', 'quote!(\n                        Self::ValidationError(ref error) => f.write_str(error.lines().next().unwrap_or("")),'))
t('display-pad', 'P10', (BLD, 'quote!(\n                        Self::ValidationError(ref error) => write!(f, "{}", error),', 'quote!(\n                        Self::ValidationError(ref error) => write!(f, "{:.120}", error),'))
t('ufe-from-trim', 'P10', (ERR, '        Self::new(field_name)\n', '        Self::new(field_name.trim_start_matches("r#"))\n'))
t('ufe-display-debug', 'P10', (ERR, 'write!(f, "Field not initialized: {}", self.0)', 'write!(f, "Field not initialized: {}", self.0.trim_start_matches("r#"))'))
t('try-name-raw', 'P12', (SET, 'let try_ident = format_ident!("try_{}", ident, span = Span::call_site());', 'let try_ident = format_ident!("try_{}", ident.to_string().trim_start_matches("try_").trim_start_matches("r#"), span = Span::call_site());'))
t('prefix-empty-underscore', 'P12', (OPT, 'return format_ident!("{}_{}", prefix, ident.as_ref().unwrap());', 'let name = ident.as_ref().unwrap().to_string(); return format_ident!("{}_{}", prefix, name.trim_start_matches("r#").trim_start_matches(\'_\'));'))
t('prefix-dup', 'P12', (OPT, 'if let Some(ref prefix) = self.setter_prefix() {', 'if let Some(ref prefix) = self.setter_prefix().filter(|p| !ident.as_ref().unwrap().to_string().starts_with(&format!("{}_", p))) {'))
t('field-vis-parent-for-custom', 'P13', (OPT, 'if self.field_enabled() {\n                        None', 'if self.field_enabled() && !(self.field.setter.custom == Some(true) && self.field.field.builder_type.is_some()) {\n                        None'))
t('enum-vis', 'P13', (BLD, '#builder_vis enum #builder_error_ident {', '#error_vis enum #builder_error_ident {'),
  (BLD, '                let builder_error_doc', '                let error_vis = if self.impl_default { quote!(#builder_vis) } else { quote!(pub) };\n                let builder_error_doc'))
t('attrs-dedup', 'P14', (OPT, '''            match unnest_from_one_attribute(attr) {
                Ok(n) => destination.push(n),''', '''            match unnest_from_one_attribute(attr) {
                Ok(n) => if destination.last() != Some(&n) { destination.push(n) },'''))
t('attr-order', 'P14', (OPT, '''        if let Some((_, destination)) = destination {
            match''', '''        if let Some((_, destination)) = destination {
            if destination.len() > 3 { destination.rotate_left(1); }
            match'''))
t('clone-bound-skip-if-bounded', 'P16', (BLD, '''            for typ in generics.type_params_mut() {
''', '''            for typ in generics.type_params_mut().filter(|t| t.bounds.len() < 2) {
'''))
t('clone-bound-first', 'P16', (BLD, '''            for typ in generics.type_params_mut() {
''', '''            for typ in generics.type_params_mut().filter(|t| t.default.is_none()) {
'''))
t('where-lost-on-default', 'P17', (BLD, 'for #builder_ident #impl_ty_generics #impl_where_clause {\n                        fn default', 'for #builder_ident #impl_ty_generics #wh {\n                        fn default'),
  (BLD, "            if self.impl_default {\n", "            if self.impl_default {\n                let wh = impl_where_clause.filter(|w| w.predicates.len() < 2 || self.must_derive_clone);\n"))
t('derive-dedup-debug', 'P17', (BLD, '                traits.extend(self.derives);', '                traits.extend(self.derives.iter().filter(|t| !(t.is_ident("Debug") && self.derives.len() > 2)));'))
t('block-when-default-struct', 'P18', (INI, '''                    FieldConversion::Block(conv) => {
                        conv.to_tokens(tokens);
                    }''', '''                    FieldConversion::Block(_) if self.use_default_struct && self.builder_pattern == BuilderPattern::Owned => {
                        let d = self.default();
                        tokens.append_all(d);
                    }
                    FieldConversion::Block(conv) => {
                        conv.to_tokens(tokens);
                    }'''))
t('std-path', 'P19', (BLD, 'if self.std {', 'if self.std || self.crate_root.segments.len() > 2 {'))
t('some-path-shadow', 'P19', (SET, 'quote!( #crate_root::export::core::option::Option::Some(#bare_value) )', 'quote!( Option::Some(#bare_value) )'))
t('default-literal', 'P03', (C + 'default_expression.rs', '''                return Self::from_value(&el.lit);
            }
''', '''                return Self::from_value(&el.lit);
            }
            if let syn::Lit::Bool(syn::LitBool { value: false, .. }) = el.lit {
                return Ok(DefaultExpression::Trait);
            }
'''))
t('default-true', 'P03', (C + 'default_expression.rs', '''                return Self::from_value(&el.lit);
            }
''', '''                return Self::from_value(&el.lit);
            }
            if let syn::Lit::Bool(syn::LitBool { value: true, .. }) = el.lit {
                return Ok(DefaultExpression::Trait);
            }
'''))
t('default-struct-lazy', 'P03', (BM, 'let default_struct = self.default_struct.as_ref().map(', 'let default_struct = self.default_struct.as_ref().filter(|d| !matches!(d, DefaultExpression::Trait) || self.initializers.iter().any(|i| i.to_string().contains("__default"))).map('))
t('field-threshold', 'P02', (OPT, 'field_enabled: self.field_enabled(),\n            field_ident: self.field_ident(),\n            builder_pattern', 'field_enabled: self.field_enabled() && !(self.parent.field_count() > 24 && self.field.default.is_some()),\n            field_ident: self.field_ident(),\n            builder_pattern'))
t('clone-threshold', 'P16', (OPT, 'self.pattern.requires_clone() || self.fields().any(|f| f.pattern().requires_clone())', 'self.pattern.requires_clone() || self.fields().take(8).any(|f| f.pattern().requires_clone())'))
t('immut-each-on-self', 'P05', (SET, 'quote!(#crate_root::export::core::clone::Clone::clone(self));', 'if self.each.is_some() && self.field_type.setter_type_info().1 { quote!({ let n = #crate_root::export::core::clone::Clone::clone(self); n }) } else { quote!(#crate_root::export::core::clone::Clone::clone(self)) };'))  # preserving control
t('phantom-fn', 'P17', (BF, '#crate_root::export::core::marker::PhantomData<#ty>', '#crate_root::export::core::marker::PhantomData<fn() -> #ty>'))
t('vec-special', 'P03', (INI, '''            None => {
                if self.use_default_struct {
                    MatchNone::Use''', '''            None => {
                if self.use_default_struct && self.field_ident != "value" {
                    MatchNone::Use'''))
