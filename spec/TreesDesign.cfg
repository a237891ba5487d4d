SPECIFICATION Spec
CONSTANTS
  Keys = {1, 2}
  Depth = 2
  Width = 1
INVARIANTS LeavesMatchPaths Inverts SameIsNormalForm OrderIndependent PathsDetermine MapKeeps UpToSelf
