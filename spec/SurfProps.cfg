SPECIFICATION Spec
INVARIANT Invariants
PROPERTY Influences
