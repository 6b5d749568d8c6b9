"""Edits against P21."""
B = 'derive_builder_core/src/builder.rs'
S = 'derive_builder_core/src/setter.rs'
T = [
    ('lint-empty-doc', 'P21', [(B, '''                    /// Create an empty builder, with all fields set to `None` or `PhantomData`.
                    fn #create_empty''', '''                    fn #create_empty''')]),
    ('lint-variant-doc', 'P21', [(B, '''                        /// Custom validation error
''', '')]),
    ('lint-error-doc', 'P21', [(B, '''                    #[doc=#builder_error_doc]
''', '')]),
    ('doc-build-renamed', 'P21', [('derive_builder_core/src/build_method.rs', '''        let doc_comment = &self.doc_comment;
''', '''        let doc_comment = if *self.ident == "build" { self.doc_comment.as_ref() } else { None };
''')]),
    ('doc-first-attr-only', 'P21', [('derive_builder_core/src/builder.rs', '''                #builder_doc_comment
                #builder_vis struct''', '''                #struct_doc
                #builder_vis struct'''), (B, '''            let builder_doc_comment = &self.doc_comment;
''', '''            let builder_doc_comment = &self.doc_comment;
            let struct_doc = if struct_attrs.is_empty() { builder_doc_comment.as_ref() } else { None };
''')]),
]
