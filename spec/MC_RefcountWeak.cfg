SPECIFICATION Spec
CONSTANTS
  Threads <- MCThreads
  ScriptSets <- MCScripts
  DecOrd = "acq_rel"
  LoadOrd = "relaxed"
INVARIANTS NoRace
