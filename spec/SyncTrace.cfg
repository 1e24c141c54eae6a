SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  Rank <- TRank
  KeyOf <- TKey
  PathOf <- TPath
