CONSTANTS
  P = 17
  Gen = 3
  TwoAdicity = 4
  N = 4
  MaxCircuits = 6
SPECIFICATION Spec
INVARIANTS TypeOK Order DomainIsPoints Distinct Through Agree Stable
CHECK_DEADLOCK FALSE
