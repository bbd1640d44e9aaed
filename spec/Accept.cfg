SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS Agree RootOptional Rooted OneEndpoint IssuerKnown UniqueRoot
