SPECIFICATION Spec
CONSTANTS Subs = {"a", "b"}
          TSubs = {"x"}
          MaxLog = 3
CONSTRAINT Bounded
INVARIANTS TypeOK PendingIsLegal Told TellBeforeWork
PROPERTIES OnlyDocumented NothingAfterUnsub ErrorIsFinal
CHECK_DEADLOCK FALSE
