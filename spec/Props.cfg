SPECIFICATION Spec
INVARIANT Contents
PROPERTY TheProperty
VIEW View
