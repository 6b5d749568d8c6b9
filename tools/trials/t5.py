"""More edits against properties that had few."""
O = 'derive_builder_core/src/macro_options/darling_opts.rs'
B = 'derive_builder_core/src/builder.rs'
S = 'derive_builder_core/src/setter.rs'
M = 'derive_builder_core/src/build_method.rs'
I = 'derive_builder_core/src/initializer.rs'
K = 'derive_builder_core/src/block.rs'
T = [
    ('validator-if-built', 'P15', [(O, 'if self.validate.is_some() {', 'if self.validate.is_some() && !self.skip && self.name == "build" {')]),
    ('ty-default-custom-ok', 'P15', [(O, 'if self.field.builder_type.is_some() {', 'if self.field.builder_type.is_some() && self.setter.custom != Some(true) {')]),
    ('build-default-word-ok', 'P15', [(O, 'if self.field.build.is_some() {', 'if self.field.build.is_some() && !matches!(field_default, DefaultExpression::Trait) {')]),
    ('each-strip-plain-reject', 'P15', [(O, '''        errors.finish_with(self)
    }
}

/// Divide''', '''        if self.setter.each.is_some() && self.setter.strip_option == Some(false) && self.setter.name.is_some() {
            errors.push(darling::Error::custom("`each` and `strip_option = false` cannot be used together"));
        }

        errors.finish_with(self)
    }
}

/// Divide''')]),
    ('try-into-reject', 'P15', [(O, '''        errors.finish_with(self)
    }
}

/// Divide''', '''        if self.try_setter.is_present() && self.setter.custom == Some(true) && self.setter.skip == Some(false) {
            errors.push(darling::Error::custom("`try_setter` needs a setter"));
        }

        errors.finish_with(self)
    }
}

/// Divide''')]),
    ('blocks-last', 'P18', [(M, '''        let initializers = &self.initializers;
''', '''        let mut initializers = self.initializers.clone();
        if self.default_struct.is_some() {
            initializers.sort_by_key(|i| i.to_string().contains(": {"));
        }
''')]),
    ('validation-local-path', 'P19', [(B, '''impl #crate_root::export::core::convert::From<#crate_root::export::core::string::String> for #builder_error_ident {''',
        '''impl #crate_root::export::core::convert::From<#crate_root::export::core::string::String> for self::#builder_error_ident {''')]),
    ('display-to-string', 'P19', [(B, '''Self::ValidationError(ref error) => write!(f, "{}", error),''', '''Self::ValidationError(ref error) => f.write_str(&error.to_string()),''')]),
    ('default-self-path', 'P19', [(B, '''                            Self::#create_empty()
''', '''                            <#builder_ident #impl_ty_generics>::#create_empty()
''')]),
    ('unquoted-block-once', 'P20', [(K, '''        Self(Block {
            brace_token''', '''        if let syn::Expr::MethodCall(ref call) = v {
            if call.args.is_empty() && call.turbofish.is_none() {
                return Self::from((*call.receiver).clone());
            }
        }
        Self(Block {
            brace_token''')]),
    ('each-shares-try', 'P20', [(O, '''            each: self.field.setter.each.as_ref(),''', '''            each: self.field.setter.each.as_ref().filter(|e| {
                self.parent.raw_fields().iter().filter_map(|f| f.setter.each.as_ref()).filter(|o| o.name == e.name).count() < 2
                    && !(self.parent.raw_fields().len() > 3 && self.field.try_setter.is_present() && self.parent.try_setter.is_present())
            }),''')]),
    ('parent-vis-repeated', 'P20', [(O, '''        self.field
            .visibility
            .to_explicit_visibility()
            .or_else(|| self.parent.visibility.to_explicit_visibility())''', '''        self.field
            .visibility
            .to_explicit_visibility()
            .filter(|v| !(matches!(**v, syn::Visibility::Inherited) && self.parent.field.to_explicit_visibility().is_some()))
            .or_else(|| self.parent.visibility.to_explicit_visibility())''')]),
    ('empty-build-trailing', 'P15', [(K, '''            if contents.is_empty() {''', '''            if s.value().is_empty() {''')]),
    ('precise-starts-inner', 'P18', [(S, '''            if stripped_option {
                into_value = wrap''', '''            if stripped_option && (builder_field_is_option || !self.try_setter) {
                into_value = wrap''')]),
    ('uninit-before-block', 'P18', [(I, '''                    FieldConversion::Block(conv) => {
                        conv.to_tokens(tokens);''', '''                    FieldConversion::Block(conv) if self.default_value.is_none() && self.use_default_struct && self.custom_error_type_span.is_some() => {
                        tokens.append_all(quote!(match self.#builder_field { _ => #conv }));
                    }
                    FieldConversion::Block(conv) => {
                        conv.to_tokens(tokens);''')]),
]
