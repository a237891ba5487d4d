SPECIFICATION Spec
CONSTANTS MaxN = 13 MaxC = 5 MaxW = 5 MaxE = 3
INVARIANTS TypeOK RoundTrip InOrder LastSeenRight AllDone ShardsCover EpochsCover
CHECK_DEADLOCK FALSE
