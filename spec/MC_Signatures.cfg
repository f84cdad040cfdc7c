SPECIFICATION Spec
CONSTANT N = 2
INVARIANTS RoundTrip Uses Exact
