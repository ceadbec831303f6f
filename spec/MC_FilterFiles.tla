--------------------------- MODULE MC_FilterFiles ---------------------------
(* Transmission curves come and go in the filter directories while a user
   asks for them by pattern. *)
EXTENDS Loader, Json
CONSTANTS MaxSteps, EmitAt
VARIABLES disk, dirs, env, hist, out
vars == <<disk, dirs, env, hist, out>>
Dirs == {"A", "A/filters", "B[1]"}
Envs == {None, "A", "C"}
Names == {"lsst_r.h5", "lsst_r2.h5", "lsst_i.h5", ".lsst_r.h5"}
Pats == {"lsst_r*", "lsst_r.h5", "*", "lsst_?.h5", "lsst_[ri].h5", "*_r?.h5", "sdss*", ".lsst*", "lsst_[!i]*"}
Kinds == {"ok", "dips", "negative", "above"}
Init == disk = {} /\ dirs = Dirs /\ env = None /\ hist = << >> /\ out = Fail("")
Done(h) == hist' = Append(hist, h)
Write(d, n, k) == /\ d \in dirs /\ disk' = Put(disk, d, n, k) /\ UNCHANGED <<env, out, dirs>>
                  /\ Done([op |-> "write", dir |-> d, name |-> n, v |-> k])
Remove(d, n) == /\ Exists(disk, d, n) /\ disk' = Drop(disk, d, n) /\ UNCHANGED <<env, out, dirs>>
                /\ Done([op |-> "remove", dir |-> d, name |-> n])
RmDir == /\ "A/filters" \in dirs /\ dirs' = dirs \ {"A/filters"}
         /\ disk' = {e \in disk : e.dir # "A/filters"} /\ UNCHANGED <<env, out>>
         /\ Done([op |-> "rmdir", dir |-> "A/filters"])
MkDir == /\ "A/filters" \notin dirs /\ dirs' = dirs \cup {"A/filters"} /\ UNCHANGED <<disk, env, out>>
         /\ Done([op |-> "mkdir", dir |-> "A/filters"])
SetEnv(d) == /\ env # d /\ env' = d /\ UNCHANGED <<disk, out, dirs>> /\ Done([op |-> "env", dir |-> d])
Args == [fn : {<< >>}, drn : {None, "A/filters", "B[1]", "D"}, pat : Pats]
        \cup [fn : {<<"B[1]", "lsst_r.h5">>}, drn : {None, "A/filters"}, pat : {"lsst_i*"}]
Load(a) == /\ out' = FilterFile(disk, dirs, env, a) /\ UNCHANGED <<disk, env, dirs>>
           /\ Done([op |-> "load_filter", a |-> a])
LastIsLoad == hist # << >> /\ hist[Len(hist)].op = "load_filter"
Finish == /\ EmitAt = 0 /\ Len(hist) = MaxSteps /\ hist[Len(hist)].op # "end"
          /\ Done([op |-> "end"]) /\ UNCHANGED <<disk, env, out, dirs>>
Next == Finish \/ (Len(hist) < MaxSteps /\
        \/ \E d \in Dirs, n \in Names, k \in Kinds : Write(d, n, k)
        \/ \E d \in Dirs, n \in Names : Remove(d, n)
        \/ RmDir \/ MkDir
        \/ \E d \in Envs : SetEnv(d)
        \/ \E a \in Args : Load(a))
Spec == Init /\ [][Next]_vars
\* one match or none: a file found by pattern is the only one that could be meant
Unique == LastIsLoad => LET a == hist[Len(hist)].a IN
    (out.err = "" /\ a.fn = << >>) =>
        /\ Glob(a.pat, out.name)
        /\ \A e \in disk : (e.dir = out.dir /\ e.name # out.name) => ~Glob(a.pat, e.name)
HiddenStayHidden == LastIsLoad => LET a == hist[Len(hist)].a IN
    (a.pat = "*" /\ a.fn = << >> /\ out.err = "") => out.name # ".lsst_r.h5"
GlobSane == /\ Glob("*", "abc") /\ Glob("a*c", "abc") /\ ~Glob("a*b", "abc") /\ Glob("a[bx]?", "abc")
            /\ ~Glob("a[!b]c", "abc") /\ Glob("", "") /\ ~Glob("", "a") /\ Glob("***", "a")
EmitCases == (hist # << >> /\ IF EmitAt = 0 THEN hist[Len(hist)].op = "end" ELSE Len(hist) = EmitAt /\ LastIsLoad)
   => PrintT("CASE " \o ToJson([hist |-> hist]))
=============================================================================
