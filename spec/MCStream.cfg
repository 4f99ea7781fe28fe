CONSTANTS
  MaxLen = 4
  Vocab = "core"
  Dump = TRUE
  Escape <- EscapeImpl
INIT Init
NEXT Next
INVARIANTS TypeOK Guaranteed ImportsFound Rendered Layout Rebuild Compose Export
CHECK_DEADLOCK FALSE
