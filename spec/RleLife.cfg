CONSTANTS Vals = {1, 2}
          MaxRun = 3
          MaxHeld = 9
SPECIFICATION RSpec
INVARIANT Canonical
CHECK_DEADLOCK FALSE
