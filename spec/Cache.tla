------------------------------ MODULE Cache ------------------------------
(* C22.  A cached operation: one file per distinct input.  A crash while     *)
(* saving leaves a truncated file; files may be removed, cut or replaced     *)
(* between runs.  Without a directory nothing is read or written.            *)
EXTENDS Fx
CONSTANTS Inputs, MaxRuns

(* contents of a file: "none", "cut" (truncated or unreadable), "good" *)
Hit(file, dir) == dir /\ file = "good"
After(file, dir, res) == IF dir /\ res = "done" THEN "good" ELSE IF dir /\ res = "crashed" /\ file # "good" THEN "cut" ELSE file

VARIABLES file, answer, computed, n, dirs
vars == <<file, answer, computed, n, dirs>>
Value(i) == i        \* what computing afresh gives for input i
Init == file = [i \in Inputs |-> "none"] /\ answer = <<>> /\ computed = 0 /\ n = 0 /\ dirs = <<>>
Run == /\ n < MaxRuns /\ n' = n + 1
       /\ \E i \in Inputs, dir \in BOOLEAN, res \in {"done", "raised", "crashed"} :
          /\ (Hit(file[i], dir) => res = "done")
          /\ answer' = IF res = "done" THEN <<i, Value(i)>> ELSE answer
          /\ computed' = IF Hit(file[i], dir) THEN computed ELSE computed + 1
          /\ file' = [file EXCEPT ![i] = After(file[i], dir, res)]
          /\ dirs' = <<dir>>
Fault == /\ n < MaxRuns /\ n' = n + 1
         /\ \E i \in Inputs, f \in {"none", "cut"} : file[i] # "none" /\ file' = [file EXCEPT ![i] = f]
         /\ UNCHANGED <<answer, computed>> /\ dirs' = <<>>
Next == Run \/ Fault
Spec == Init /\ [][Next]_vars
Transparent == answer # <<>> => answer[2] = Value(answer[1])
NoDirNoFile == [][dirs' = <<FALSE>> => file' = file]_vars
GoodIsKept == [][\A i \in Inputs : file[i] = "good" /\ file'[i] # "good" => dirs' = <<>>]_vars
=========================================================================
