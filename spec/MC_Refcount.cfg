SPECIFICATION Spec
CONSTANTS
  Threads <- MCThreads
  ScriptSets <- MCScripts
  DecOrd = "acq_rel"
  LoadOrd = "acquire"
INVARIANTS AtMostOneLast LastMeansNoOwners NoRace AllReleased
PROPERTY EventuallyReclaimed
