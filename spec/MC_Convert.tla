----------------------------- MODULE MC_Convert -----------------------------
(* Sessions with the two tools: every sequence of runs over a few file names.  *)
EXTENDS Convert, TLC
LOCAL INSTANCE Json
CONSTANTS Depth, Classes
VARIABLES disk, start, runs, class
vars == <<disk, start, runs, class>>
X == "EXT"
Outs == {<<>>, <<"out", "bin">>, <<"out", X>>, <<"out", "json">>, <<"m", X, "json">>}
Bin1 == Content("bin", 1)
Junk == Content("junk", 0)
Starts == { (<<"m", X>> :> Bin1), (<<"m", X>> :> Bin1) @@ (<<"m", X, "json">> :> Junk), (<<"m", X>> :> Bin1) @@ (<<"out", "bin">> :> Junk) @@ (<<"out", "json">> :> Junk),
            (<<"m", X>> :> Junk), (<<"m", "x", X>> :> Bin1) @@ (<<"m", "x", "json">> :> Junk), (<<"m", "dat">> :> Bin1) }
Init == disk \in Starts /\ start = disk /\ runs = <<>> /\ class \in Classes
Possible(run) == /\ OutOf(run, X) # run.in
                 (* what a tool does with the JSON of the other tool is not specified *)
                 /\ (LastOf(run.in) = "json" /\ disk[run.in].t \in {"lib", "data"}) => disk[run.in].t = run.tool
Run(run) == /\ Possible(run)
            /\ disk' = RunTool(disk, run, X, class)
            /\ runs' = Append(runs, run)
            /\ UNCHANGED <<start, class>>
Next == Len(runs) < Depth /\ \E tool \in {"lib", "data"}, in \in DOMAIN disk, out \in Outs : Run([tool |-> tool, in |-> in, out |-> out])
Spec == Init /\ [][Next]_vars
Emit == IF Len(runs) = Depth
        THEN PrintT(<<"GEN", ToJson([class |-> class, runs |-> runs,
               start |-> LET RECURSIVE L(_)
                             L(S) == IF S = {} THEN <<>> ELSE LET n == CHOOSE n \in S : TRUE IN <<[name |-> n, c |-> start[n]]>> \o L(S \ {n})
                         IN L(DOMAIN start)])>>)
        ELSE TRUE
(* A file that no run was to write is as it was. *)
Untouched == \A n \in DOMAIN start : disk[n] = start[n] \/ \E i \in 1..Len(runs) : OutOf(runs[i], X) = n
(* JSON files hold JSON or what they held; the lossless tool alone never leaves generation 1. *)
Lossless == (\A i \in 1..Len(runs) : runs[i].tool = "lib") => \A n \in DOMAIN disk : disk[n].g <= 1
Generations == \A n \in DOMAIN disk : disk[n].g <= 1 + Len(runs) \div 2
=============================================================================
