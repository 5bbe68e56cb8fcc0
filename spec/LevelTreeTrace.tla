--------------------------- MODULE LevelTreeTrace ---------------------------
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils
MaxOps == 0
MaxEnts == 0
MaxLvl == 0
VARIABLES f, hist, c, p, ok
T == INSTANCE LevelTree
Cases == ndJsonDeserialize(IOEnv.TRACE)
K == atoi(IOEnv.SHARDS)

(* e.o is what the implementation reports after the operation                *)
EntOK(F, x) ==
    /\ x.id \in T!Ids(F)
    /\ LET n == F.ent[x.id]
           sib == IF n.par = 0 THEN F.roots ELSE F.ent[n.par].kids
       IN /\ x.lv = n.lv /\ x.dp = n.dp /\ x.kids = n.kids /\ x.par = n.par
          /\ x.leaf = (n.kids = <<>>) /\ x.haschild = (n.kids # <<>>)
          /\ x.root = (n.par = 0) /\ x.nk = Len(n.kids)
          /\ x.ns = Len(sib) /\ x.si + 1 \in 1..Len(sib) /\ sib[x.si + 1] = x.id
          /\ x.first = (x.si = 0) /\ x.last = (x.si + 1 = Len(sib))
ObsOK(F, o) ==
    /\ o.size = Len(F.roots) /\ o.empty = (F.roots = <<>>)
    /\ o.roots = F.roots
    /\ {o.ents[k].id : k \in 1..Len(o.ents)} = T!Ids(F)
    /\ Len(o.ents) = Cardinality(T!Ids(F))
    /\ \A k \in 1..Len(o.ents) : EntOK(F, o.ents[k])
    /\ o.maxl = T!NumLevels(F)
    /\ LET pre == T!Pre(F) post == T!Post(F) all == T!All(F) IN
       /\ o.pre = pre /\ o.bpre = pre /\ o.rpre = T!Rev(pre) /\ o.cpre = pre
       /\ o.post = post /\ o.bpost = post /\ o.rpost = T!Rev(post) /\ o.cpost = post
       /\ o.all = all /\ o.ball = all /\ o.rall = T!Rev(all) /\ o.call = all
    /\ Len(o.lev) = T!NumLevels(F)
    /\ \A l \in 1..Len(o.lev) :
          LET q == T!OnLevel(F, l - 1) IN
          /\ o.lev[l] = q /\ o.blev[l] = q /\ o.rlev[l] = T!Rev(q) /\ o.clev[l] = q

TInit == c \in 1..K /\ p = 1 /\ f = T!EmptyF /\ ok = TRUE /\ hist = <<>>
TNext == /\ c <= Len(Cases) /\ hist' = hist
         /\ IF p > Len(Cases[c].ev)
            THEN c' = c + K /\ p' = 1 /\ f' = T!EmptyF /\ ok' = TRUE
            ELSE LET e == Cases[c].ev[p] IN
                 /\ f' = T!Apply(f, e)
                 /\ ok' = (("o" \in DOMAIN e => ObsOK(f', e.o)) /\ ("err" \notin DOMAIN e))
                 /\ p' = p + 1 /\ c' = c
TSpec == TInit /\ [][TNext]_<<f, hist, c, p, ok>>
TraceOK == ok
=============================================================================
