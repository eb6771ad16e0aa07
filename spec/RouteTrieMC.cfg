SPECIFICATION Spec
INVARIANT MeansSame
INVARIANT NoGarbage
CONSTRAINT Bound
CHECK_DEADLOCK FALSE
CONSTANTS
  Cl = {1, 2}
  Filters <- MCFilters
  Topics <- MCTopics
  MaxSubs = 3
