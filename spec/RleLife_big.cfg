CONSTANTS Vals = {1, 2}
          MaxRun = 4
          MaxHeld = 12
SPECIFICATION RSpec
INVARIANT Canonical
CHECK_DEADLOCK FALSE
