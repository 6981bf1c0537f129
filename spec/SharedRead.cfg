SPECIFICATION Spec
INVARIANTS AsAlone Shared
