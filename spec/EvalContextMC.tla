---------------------------- MODULE EvalContextMC ----------------------------
EXTENDS EvalContext, TLC, Json
MCRules == {<<1, 3, 1>>, <<1, 3, 2>>}
MCDepends == [x |-> {"el", "pt"}, xi |-> {"pt"}, jac |-> {"el", "pt"}, v |-> {"el", "pt", "tr"}, s |-> {"el", "pt", "tr"}]
View == <<sel, cache, clean>>
Emit == Len(hist) = MaxOps => PrintT(<<"H", ToJson(hist)>>)
Quiet == Init /\ [][\E o \in Ops : Len(hist) < MaxOps /\ Set(o)]_vars
==============================================================================
