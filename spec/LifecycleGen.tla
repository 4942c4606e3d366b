--------------------------- MODULE LifecycleGen ---------------------------
EXTENDS Lifecycle
CONSTANTS Depth, GenKinds
VARIABLES hist, done
Pick(S) == RandomElement(S)
GInit == kind = "-" /\ s = 0 /\ n = 0 /\ hist = <<>> /\ done = FALSE
Choose == kind = "-" /\ \E k \in {Pick(GenKinds)} : kind' = k /\ s' = Start0(k) /\ UNCHANGED <<n, hist, done>>
Do(e) == s' = Step(s, e) /\ hist' = Append(hist, e)
GStep == /\ kind # "-" /\ Len(hist) < Depth /\ n' = n + 1 /\ UNCHANGED <<kind, done>>
         /\ \E w \in {Pick(1..12)} : \E d \in {Pick(DataSets)} : \E v \in {Pick(Versions)} : \E der \in {Pick({0, 1, 1})} :
            LET dd == IF kind = "GEKPLS" THEN 1 ELSE IF WithDer(kind) THEN der ELSE 0 IN
            \/ /\ w <= 2 \/ s.data.set = 0
               /\ Do([op |-> "setdata", set |-> d, ver |-> v, der |-> dd])
            \/ w = 3 /\ s.data.set # 0 /\ Do([op |-> "updatey", ver |-> v])
            \/ /\ w \in 4..7 /\ s.data.set # 0
               /\ IF DOMAIN Opts(kind) = {} THEN Do([op |-> "updatey", ver |-> v])
                  ELSE \E o \in {Pick(DOMAIN Opts(kind))} : \E x \in {Pick(Opts(kind)[o])} :
                       Do([op |-> "setopt", o |-> o, v |-> x])
            \/ w \in 8..11 /\ s.data.set # 0 /\ Do([op |-> "train", want |-> [data |-> s.data, opt |-> s.opt]])
            \/ w = 12 /\ s.data.set # 0 /\ Do([op |-> "predict"])
GDone == Len(hist) = Depth /\ ~done /\ done' = TRUE /\ UNCHANGED <<kind, s, n, hist>>
GNext == Choose \/ GStep \/ GDone
GSpec == GInit /\ [][GNext]_<<kind, s, n, hist, done>>
Emit == done => PrintT("BEHAVIOUR " \o ToJson([kind |-> kind, ev |-> hist]))
=========================================================================
