SPECIFICATION GSpec
CONSTANTS
  Threads <- GThreads
  ScriptSets <- GScripts
  DecOrd = "acq_rel"
  LoadOrd = "acquire"
INVARIANTS Emit
CHECK_DEADLOCK FALSE
