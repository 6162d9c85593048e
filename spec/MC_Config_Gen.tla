---------------------------- MODULE MC_Config_Gen ----------------------------
EXTENDS Config_Gen
NoSubs == {}
SomeSubs == {<<"s1", "a">>, <<"s1", "b">>, <<"s1", "str">>, <<"s2", "a">>, <<"s2", "str">>}
=============================================================================
