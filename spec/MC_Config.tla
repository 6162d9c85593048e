------------------------------ MODULE MC_Config ------------------------------
EXTENDS Config
SmallSubs == {<<"s1", "a">>, <<"s2", "str">>}
=============================================================================
