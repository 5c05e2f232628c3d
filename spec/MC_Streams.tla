----------------------------- MODULE MC_Streams -----------------------------
(* A program that places data at positions of a stream, by moving and by      *)
(* transferring until everything is transferred (write_all), over a stream    *)
(* with every plan: what it leaves and how it ends is what Streams allows.    *)
EXTENDS Streams, TLC, Json

CONSTANTS MaxLen, MaxAt, Chunks

Cmds == [do : {"put"}, n : 1..3] \cup [do : {"move"}, n : 0..3]
Programs == UNION {[1..k -> Cmds] : k \in 1..MaxLen}
Plans == [chunk : Chunks, intr : BOOLEAN, fault : {"none"}, at : {1}] \cup [chunk : Chunks, intr : BOOLEAN, fault : {"fail", "once", "zero"}, at : 1..MaxAt]
ASSUME \A p \in Plans : PrintT(<<"GEN", ToJson(p)>>)

VARIABLES prog, plan, pc, left, pos, data, ops, intr, hit, res
vars == <<prog, plan, pc, left, pos, data, ops, intr, hit, res>>

Byte(c, j) == 10 * c + j          \* byte j of command c
Init == /\ prog \in Programs /\ plan \in Plans
        /\ pc = 1 /\ left = 0 /\ pos = 0 /\ data = <<>> /\ ops = 0 /\ intr = FALSE /\ hit = FALSE /\ res = "run"

Size(f) == Len(f)
Put(f, p, b) ==      \* byte b at position p (from 0), zeros in between
  [q \in 1..(IF p + 1 > Len(f) THEN p + 1 ELSE Len(f)) |-> IF q = p + 1 THEN b ELSE IF q <= Len(f) THEN f[q] ELSE 0]
RECURSIVE PutAll(_, _, _, _, _)
PutAll(f, p, c, j, n) == IF n = 0 THEN f ELSE PutAll(Put(f, p, Byte(c, j)), p + 1, c, j + 1, n - 1)

Cur == prog[pc]
Done == pc > Len(prog)
Faulty(a, n) == a.k = "err" \/ (n > 0 /\ a.n = 0)
Start == (* nothing of the current command is transferred yet *) left = 0
Step ==
  /\ res = "run"
  /\ IF Done THEN res' = "ok" /\ UNCHANGED <<prog, plan, pc, left, pos, data, ops, intr, hit>>
     ELSE IF Cur.do = "put" /\ plan.intr /\ ~intr
          THEN (* interrupted: ask again *) intr' = TRUE /\ UNCHANGED <<prog, plan, pc, left, pos, data, ops, hit, res>>
     ELSE LET want == IF Cur.do = "put" THEN Cur.n - left ELSE 0
              a == Answer(plan, ops + 1, want)
          IN /\ ops' = ops + 1
             /\ intr' = FALSE
             /\ UNCHANGED <<prog, plan>>
             /\ IF Faulty(a, want) THEN /\ hit' = TRUE /\ res' = "err"
                                        /\ UNCHANGED <<pc, left, pos, data>>
                ELSE /\ UNCHANGED <<hit, res>>
                     /\ IF Cur.do = "move" THEN pos' = Cur.n /\ pc' = pc + 1 /\ UNCHANGED <<left, data>>
                        ELSE /\ data' = PutAll(data, pos, pc, left, a.n)
                             /\ pos' = pos + a.n
                             /\ IF left + a.n = Cur.n THEN pc' = pc + 1 /\ left' = 0
                                ELSE left' = left + a.n /\ UNCHANGED pc
Spec == Init /\ [][Step]_vars /\ WF_vars(Step)

(* The undisturbed effect of the program. *)
RECURSIVE Effect(_, _, _)
Effect(c, p, f) ==
  IF c > Len(prog) THEN f
  ELSE IF prog[c].do = "move" THEN Effect(c + 1, prog[c].n, f)
  ELSE Effect(c + 1, p + prog[c].n, PutAll(f, p, c, 0, prog[c].n))

Ends == res \in {"run"} \cup WriteResults(plan, hit)
Same == res = "ok" => data = Effect(1, 0, <<>>)
(* A fault that does not take place changes nothing; pauses never do. *)
Harmless == plan.fault = "none" => res # "err" /\ ~hit
Reached == (res = "ok" /\ plan.fault \in {"fail", "once"}) => ops < plan.at
Progress == <>(res # "run")
=============================================================================
