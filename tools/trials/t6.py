"""Edits in several places, or that need unusual values."""
O = 'derive_builder_core/src/macro_options/darling_opts.rs'
B = 'derive_builder_core/src/builder.rs'
S = 'derive_builder_core/src/setter.rs'
M = 'derive_builder_core/src/build_method.rs'
I = 'derive_builder_core/src/initializer.rs'
K = 'derive_builder_core/src/block.rs'
U = 'derive_builder/src/error.rs'
T = [
    # the name of a field loses a trailing underscore in the message
    ('missing-name-trimmed', 'P02', [(I, '''                        field_name: self.field_ident.to_string(),''', '''                        field_name: self.field_ident.to_string().trim_end_matches('_').to_string(),''')]),
    # docs of a macro are dropped
    ('doc-literal-only', 'P14', [(O, '''            for (_, output) in outputs.iter_mut() {
                output.push(attr.clone());
            }''', '''            let opaque = match &attr.meta {
                Meta::NameValue(nv) => !matches!(nv.value, syn::Expr::Lit(_)),
                _ => false,
            };
            for (_, output) in outputs.iter_mut().filter(|_| !opaque) {
                output.push(attr.clone());
            }''')]),
    ('in-path-private', 'P13', [(O, '''    pub fn field_vis(&self) -> Cow<syn::Visibility> {
        self.field
            .field
            .visibility
            .to_explicit_visibility()''', '''    pub fn field_vis(&self) -> Cow<syn::Visibility> {
        self.field
            .field
            .visibility
            .to_explicit_visibility()
            .filter(|v| !matches!(&**v, syn::Visibility::Restricted(r) if r.in_token.is_some() && r.path.is_ident("super")))''')]),
    ('custom-error-args-lost', 'P10', [(O, '''            existing.clone()
''', '''            let mut existing = existing.clone();
            if let Some(last) = existing.segments.last_mut() {
                if self.build_fn.validate.is_some() {
                    last.arguments = Default::default();
                }
            }
            existing
''')]),
    ('many-fields-order', 'P03', [(M, '''        let initializers = &self.initializers;
''', '''        let mut initializers = self.initializers.clone();
        if initializers.len() > 40 {
            initializers.reverse();
        }
''')]),
    ('many-fields-clone', 'P16', [(O, '''        self.pattern.requires_clone() || self.fields().any(|f| f.pattern().requires_clone())''', '''        self.pattern.requires_clone() || self.fields().take(16).any(|f| f.pattern().requires_clone())''')]),
    ('strip-turbofish', 'P08', [(S, '''                PathArguments::AngleBracketed(ref params) => params.args.first(),''', '''                PathArguments::AngleBracketed(ref params) if params.colon2_token.is_none() => params.args.first(),''')]),
    ('prefix-of-short', 'P12', [(O, '''        if let Some(ref prefix) = self.setter_prefix() {
''', '''        if let Some(ref prefix) = self.setter_prefix().filter(|p| !(ident.as_ref().unwrap().to_string().starts_with(&format!("{}_", p)))) {
''')]),
    ('each-first-wins-default', 'P07', [(S, '''                    quote!(get_or_insert_with(
                        #crate_root::export::core::default::Default::default
                    ))''', '''                    if each.into && pattern == BuilderPattern::Owned {
                        quote!(insert(#crate_root::export::core::default::Default::default()))
                    } else {
                        quote!(get_or_insert_with(
                            #crate_root::export::core::default::Default::default
                        ))
                    }''')]),
    ('try-drops-on-err', 'P06', [(S, '''                        let converted : #ty = value.try_into()?;
                        let mut new = #self_into_return_ty;
''', '''                        let mut new = #self_into_return_ty;
                        let converted : #ty = match value.try_into() {
                            Ok(converted) => converted,
                            Err(e) => { return Err(e); }
                        };
''')]),
    ('struct-default-per-field', 'P03', [(I, '''#DEFAULT''', '')]),
]
T = [t for t in T if t[0] != 'struct-default-per-field']
