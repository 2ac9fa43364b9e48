SPECIFICATION Fair
CONSTANTS Top = 1
          Depth = 2
          Rooms = 40
INVARIANTS Beginning Told Tight More Document
PROPERTY Ends0
CHECK_DEADLOCK FALSE
