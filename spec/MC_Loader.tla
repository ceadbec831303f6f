----------------------------- MODULE MC_Loader -----------------------------
(* A user writes, removes and moves template files, sets DSPS_DRN, and loads. *)
EXTENDS Loader, Json
CONSTANTS Dirs, Names, Versions, MaxSteps, EmitAt
VARIABLES disk, env, hist, out
vars == <<disk, env, hist, out>>
Init == disk = {} /\ env = None /\ hist = << >> /\ out = Fail("")
Done(h) == hist' = Append(hist, h)
Write(d, n, v) == /\ disk' = Put(disk, d, n, v) /\ UNCHANGED <<env, out>>
                  /\ Done([op |-> "write", dir |-> d, name |-> n, v |-> v])
Remove(d, n) == /\ Exists(disk, d, n) /\ disk' = Drop(disk, d, n) /\ UNCHANGED <<env, out>>
                /\ Done([op |-> "remove", dir |-> d, name |-> n])
Move(d, n, d2, n2) == /\ Exists(disk, d, n) /\ <<d, n>> # <<d2, n2>>
                      /\ disk' = MoveTo(disk, d, n, d2, n2) /\ UNCHANGED <<env, out>>
                      /\ Done([op |-> "move", dir |-> d, name |-> n, dir2 |-> d2, name2 |-> n2])
SetEnv(d) == /\ env # d /\ env' = d /\ UNCHANGED <<disk, out>>
             /\ Done([op |-> "env", dir |-> d])
Args == [fn : {<< >>} \cup (Dirs \X Names), drn : {None} \cup Dirs, bn : {None} \cup Names]
Load(a) == /\ out' = SspFile(disk, env, a) /\ UNCHANGED <<disk, env>>
           /\ Done([op |-> "load_ssp", a |-> a])
LastIsLoad == hist # << >> /\ hist[Len(hist)].op = "load_ssp"
\* behaviours drawn at random are printed once, when they end
Finish == /\ EmitAt = 0 /\ Len(hist) = MaxSteps /\ hist[Len(hist)].op # "end"
          /\ Done([op |-> "end"]) /\ UNCHANGED <<disk, env, out>>
Next == Finish \/ ( Len(hist) < MaxSteps /\
        \/ \E d \in Dirs, n \in Names, v \in Versions : Write(d, n, v)
        \/ \E d \in Dirs, n \in Names : Remove(d, n)
        \/ \E d, d2 \in Dirs, n, n2 \in Names : Move(d, n, d2, n2)
        \/ \E d \in Dirs \cup {None} : SetEnv(d)
        \/ \E a \in Args : Load(a))
Spec == Init /\ [][Next]_vars

\* told from the history alone: the version last put at a place, or "" if gone
RECURSIVE Content(_, _, _)
Content(h, d, n) ==
    IF h = << >> THEN ""
    ELSE LET e == h[Len(h)] r == SubSeq(h, 1, Len(h) - 1) IN
      IF e.op = "write" /\ e.dir = d /\ e.name = n THEN e.v
      ELSE IF e.op \in {"remove", "move"} /\ e.dir = d /\ e.name = n THEN ""
      ELSE IF e.op = "move" /\ e.dir2 = d /\ e.name2 = n THEN Content(r, e.dir, e.name)
      ELSE Content(r, d, n)
DiskIsHistory == \A d \in Dirs, n \in Names :
    IF Exists(disk, d, n) THEN DataAt(disk, d, n) = Content(hist, d, n) ELSE Content(hist, d, n) = ""
\* a load that succeeds reads the designated place, the way the arguments rank
LoadReads == LastIsLoad =>
    LET a == hist[Len(hist)].a IN
    /\ out.err = "" => /\ Content(hist, out.dir, out.name) # ""
                       /\ a.fn # << >> => <<out.dir, out.name>> = a.fn
                       /\ (a.fn = << >> /\ a.drn # None) => out.dir = a.drn
                       /\ (a.fn = << >> /\ a.drn = None) => out.dir = env
    /\ out.err = "ValueError" <=> (a.fn = << >> /\ a.drn = None /\ env = None)
EmitCases == (hist # << >> /\ IF EmitAt = 0 THEN hist[Len(hist)].op = "end" ELSE Len(hist) = EmitAt /\ LastIsLoad) => PrintT("CASE " \o ToJson([hist |-> hist]))
=============================================================================
