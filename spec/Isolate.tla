------------------------------ MODULE Isolate ------------------------------
(* C39.  Several objects alive in one program.  Each has its own memory:    *)
(* what it was given, its options, what it learnt.  An operation on one     *)
(* object is a step of that object alone, so what an object answers is a    *)
(* function of its own history, whatever was done to others in between,     *)
(* and a copy starts from the memory of its original and then is on its own.*)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Objs, Vers, MaxOps

Blank == [data |-> 0, opt |-> 0, model |-> <<0, 0>>]
(* one operation on the memory of one object                                *)
Do(m, o) ==
    CASE o[1] = "set"   -> [m EXCEPT !.data = o[2]]
      [] o[1] = "opt"   -> [m EXCEPT !.opt = o[2]]
      [] o[1] = "train" -> [m EXCEPT !.model = <<m.data, m.opt>>]
      [] OTHER          -> m
RECURSIVE Run(_)
Run(h) == IF h = <<>> THEN Blank ELSE Do(Run(SubSeq(h, 1, Len(h) - 1)), h[Len(h)])
(* asking tells something about the object without changing it              *)
Changes(o) == o[1] # "ask"

VARIABLES mem, own, answer, k
vars == <<mem, own, answer, k>>
Init == mem = [i \in Objs |-> Blank] /\ own = [i \in Objs |-> <<>>] /\ answer = [i \in Objs |-> <<0, 0>>] /\ k = 0
Op(i, o) == /\ mem' = [mem EXCEPT ![i] = Do(@, o)]
            /\ own' = [own EXCEPT ![i] = IF Changes(o) THEN Append(@, o) ELSE @]
            /\ answer' = IF Changes(o) THEN answer ELSE [answer EXCEPT ![i] = mem[i].model]
Copy(i, j) == mem' = [mem EXCEPT ![j] = mem[i]] /\ own' = [own EXCEPT ![j] = own[i]] /\ answer' = [answer EXCEPT ![j] = <<0, 0>>]
Next == k < MaxOps /\ k' = k + 1 /\
        (\/ \E i \in Objs : \E o \in {<<"set", v>> : v \in Vers} \cup {<<"opt", v>> : v \in Vers} \cup {<<"train">>, <<"ask">>} : Op(i, o)
         \/ \E i, j \in Objs : i # j /\ Copy(i, j))
Spec == Init /\ [][Next]_vars
(* the interleaving leaves no mark: the memory is that of the own history   *)
Alone == \A i \in Objs : mem[i] = Run(own[i])
Same == \A i, j \in Objs : own[i] = own[j] => mem[i] = mem[j]
OneAtATime == [][Cardinality({i \in Objs : mem'[i] # mem[i] \/ own'[i] # own[i] \/ answer'[i] # answer[i]}) <= 1]_vars
===========================================================================
