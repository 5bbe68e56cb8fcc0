---------------------------- MODULE SetRegistryMC ----------------------------
EXTENDS SetRegistry, TLC, Json
MCPlaces == {<<0, 0>>, <<1, 0>>, <<1, 2>>, <<3, 1>>}
Emit == (Len(hist) = MaxOps => PrintT(<<"H", ToJson(hist)>>))
View == reg
Counts == \A u \in Unknowns : Count(reg[u]) >= Inner(reg[u])
=============================================================================
