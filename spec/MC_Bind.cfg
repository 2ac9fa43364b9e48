SPECIFICATION Spec
CONSTANTS Params = 3
          Args0 = 2
INVARIANTS Decided Frame Reaches Commutes MatchSound
CHECK_DEADLOCK FALSE
