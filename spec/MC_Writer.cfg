SPECIFICATION Fair
CONSTANTS Top = 1
          Depth = 2
          Rooms = 12
INVARIANTS Beginning Told Tight More Document
PROPERTY Ends0
CHECK_DEADLOCK FALSE
