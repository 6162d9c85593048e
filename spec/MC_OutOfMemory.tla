--------------------------- MODULE MC_OutOfMemory ---------------------------
EXTENDS OutOfMemory
CONSTANTS PA, PB
MCPolicy == "A" :> PA @@ "B" :> PB
=============================================================================
