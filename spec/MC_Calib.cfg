SPECIFICATION Spec
CONSTANTS
  MaxRead = 3
INVARIANTS OneWorld Bounded Alike OneRowEach Emit
