--------------------------- MODULE PrinterTrace ---------------------------
EXTENDS Fx, Json, IOUtils
P == INSTANCE Printer WITH Keys <- {}, MaxNest <- 0, MaxOps <- 0, active <- 0, depth <- 0, times <- 0, stack <- 0, out <- 0, n <- 0
Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES t, l, st, bad
Start(cfg) == [active |-> FALSE, depth |-> 1, max |-> 100, times |-> [k \in 0..3 |-> 0], stack |-> <<>>]
Top(s) == s.stack[Len(s.stack)]
(* the lines expected, as <<depth or 0 when not indented, text>> *)
Lines(s, e) ==
  CASE e.op = "say" -> P!Line(s.active, s.depth, s.max, e.text)
    [] e.op \in {"center", "raw"} -> [i \in 1..Len(P!Line(s.active, s.depth, s.max, e.text)) |-> <<0, e.text>>]
    [] e.op = "timed" /\ e.text # "" -> P!Line(s.active, s.depth, s.max, e.text \o " ...")
    [] e.op = "close" /\ Top(s).kind = "timed" /\ Top(s).text # "" -> P!Line(s.active, s.depth - 1, s.max, Top(s).text \o " - done. Time (sec): #")
    [] OTHER -> <<>>
Step(s, e) ==
  CASE e.op = "toggle" -> [s EXCEPT !.active = e.b]
    [] e.op = "maxdepth" -> [s EXCEPT !.max = e.k]
    [] e.op = "timed" -> [s EXCEPT !.depth = @ + 1, !.stack = Append(@, [kind |-> "timed", k |-> e.k, text |-> e.text, active |-> s.active])]
    [] e.op = "active" -> [s EXCEPT !.active = s.active /\ e.b, !.stack = Append(@, [kind |-> "active", k |-> 0, text |-> "", active |-> s.active])]
    [] e.op \in {"close", "raise"} ->
         IF Top(s).kind = "timed"
         THEN [s EXCEPT !.depth = @ - 1, !.stack = SubSeq(@, 1, Len(@) - 1),
                        !.times = [k \in 0..3 |-> IF e.op = "close" /\ k = Top(s).k THEN @[k] + 1 ELSE @[k]]]
         ELSE [s EXCEPT !.active = Top(s).active, !.stack = SubSeq(@, 1, Len(@) - 1)]
    [] OTHER -> s
Judge(s, e) ==
  CASE e.op \in {"say", "center", "raw", "toggle", "maxdepth", "timed", "active", "close", "raise"} ->
         LET s2 == Step(s, e) IN
         Clause(e.lines = Lines(s, e), "lines-" \o e.op)
    \cup Clause(e.depth = s2.depth, "depth-" \o e.op) \cup Clause(e.act = s2.active, "active-" \o e.op)
    \cup Clause(\A k \in 1..3 : e.ntimes[k] = s2.times[k], "times-" \o e.op) \cup Clause(e.nonneg, "negative-time")
    [] e.op = "write" -> Clause((e.bytes > 0) = (s.active /\ s.depth <= s.max), "title-" \o e.what)
    [] e.op = "probe" -> Clause(e.depth = s.depth, "depth-after-" \o e.what) \cup Clause(e.act = s.active, "active-after-" \o e.what)
                    \cup Clause(~s.active => e.bytes = 0, "not-silent-" \o e.what)
    [] e.op = "surrogate" ->
         LET S == P!Sections(e.what, e.g, e.problem, e.training, e.prediction) IN
         Clause({e.sections[i] : i \in 1..Len(e.sections)} = S, "sections-" \o e.what)
    \cup Clause(P!MustBeSilent(e.what, e.g, e.prediction) => e.bytes = 0, "not-silent-" \o e.what)
    \cup Clause(e.depth = 1, "depth-after-" \o e.what)
    [] e.op = "silent" -> Clause(e.bytes = 0, "not-silent-" \o e.what)
    [] e.op = "equal" -> Clause(e.ok, e.what)
    [] OTHER -> {"unknown-event"}
Apply(cfg, s, e) == IF e.op = "Crash" THEN [st |-> s, bad |-> {"crash"}] ELSE [st |-> Step(s, e), bad |-> Judge(s, e)]
R == INSTANCE Replay
Spec == R!Spec
Report == R!Report
=========================================================================
