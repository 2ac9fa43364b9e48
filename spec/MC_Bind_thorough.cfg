SPECIFICATION Spec
CONSTANTS Params = 4
          Args0 = 3
INVARIANTS Decided Frame Reaches Commutes MatchSound
CHECK_DEADLOCK FALSE
