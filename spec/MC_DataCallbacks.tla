---- MODULE MC_DataCallbacks ----
EXTENDS DataCallbacks
MCOf == [c \in Chans |-> IF c = "a" \/ c = "b" THEN "zeromq" ELSE "shmem"]
====
