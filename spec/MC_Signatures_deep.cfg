SPECIFICATION Spec
CONSTANT N = 3
INVARIANTS RoundTrip Uses Exact
