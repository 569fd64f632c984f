SPECIFICATION Spec
CONSTANT M = 6
INVARIANTS Laws BigLaws
