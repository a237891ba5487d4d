SPECIFICATION Spec
CONSTANTS MaxN = 7 MaxC = 3 MaxW = 3 MaxE = 2
INVARIANTS TypeOK RoundTrip InOrder LastSeenRight AllDone ShardsCover EpochsCover
CHECK_DEADLOCK FALSE
