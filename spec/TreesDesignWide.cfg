SPECIFICATION Spec
CONSTANTS
  Keys = {1, 2, 3}
  Depth = 1
  Width = 3
INVARIANTS LeavesMatchPaths Inverts SameIsNormalForm OrderIndependent PathsDetermine MapKeeps UpToSelf
