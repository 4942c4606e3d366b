--------------------------- MODULE IsolateTrace ---------------------------
EXTENDS Fx, Json, IOUtils
P == INSTANCE Isolate WITH Objs <- {}, Vers <- {}, MaxOps <- 0, mem <- 0, own <- 0, answer <- 0, k <- 0
Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES t, l, st, bad
(* own: the history of every object; known: what an object of this history answered *)
Start(cfg) == [own |-> [i \in 1..cfg.n |-> <<>>], known |-> [h \in {} |-> <<>>]]
Key(s, e) == <<s.own[e.i], e.what>>
Apply(cfg, s, e) ==
  IF e.op = "Crash" THEN [st |-> s, bad |-> {"crash"}]
  ELSE CASE e.op = "new" -> [st |-> [s EXCEPT !.own[e.i] = <<e.kind>>], bad |-> {}]
    [] e.op = "do" -> [st |-> [s EXCEPT !.own[e.i] = Append(@, e.what)], bad |-> {}]
    [] e.op = "copy" -> [st |-> [s EXCEPT !.own[e.i] = s.own[e.from]], bad |-> {}]
    [] e.op = "ask" ->
         IF Key(s, e) \in DOMAIN s.known
         THEN [st |-> s, bad |-> Clause(s.known[Key(s, e)].res = e.res /\ NearSeq(s.known[Key(s, e)].y, e.y, e.tol), "another-answer-than-alone-" \o e.kind \o "-" \o e.what)]
         ELSE [st |-> [s EXCEPT !.known = (Key(s, e) :> [res |-> e.res, y |-> e.y]) @@ @], bad |-> {}]
    [] e.op = "equal" -> [st |-> s, bad |-> Clause(e.ok, e.what)]
    [] OTHER -> [st |-> s, bad |-> {"unknown-event"}]
R == INSTANCE Replay
Spec == R!Spec
Report == R!Report
===========================================================================
