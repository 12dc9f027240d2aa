SPECIFICATION Spec
CONSTANTS Calls = 3
          Losses = 2
INVARIANTS One Effects Sense Ends
PROPERTIES Undisturbed
CHECK_DEADLOCK FALSE
