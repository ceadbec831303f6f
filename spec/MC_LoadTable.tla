---------------------------- MODULE MC_LoadTable ----------------------------
(***************************************************************************)
(* The decision table of the loaders: every small disk, every setting of   *)
(* DSPS_DRN, every way of asking.  A file that the arguments do not        *)
(* designate never matters.                                                *)
(***************************************************************************)
EXTENDS Loader, Json
CONSTANT What
VARIABLES disk, env, a, out
vars == <<disk, env, a, out>>
Dirs == IF What = "ssp" THEN {"A", "B"} ELSE {"A", "A/filters", "B"}
Envs == IF What = "ssp" THEN {None, "A", "B"} ELSE {None, "A", "C"}
Names == IF What = "ssp" THEN {"x.h5", DefaultBn} ELSE {"lsst_r.h5", "lsst_r2.h5"}
Places == Dirs \X Names \cup (IF What = "ssp" THEN {<<"", "x.h5">>} ELSE {})
Disk(occupied) == {[dir |-> p[1], name |-> p[2], data |-> p] : p \in occupied}
None3 == [err |-> "none", dir |-> "", name |-> ""]
\* an empty path names no file; an empty directory is the current one
SspArgs == [fn : {<< >>, <<"", "">>} \cup Places, drn : {None, ""} \cup Dirs, bn : {None} \cup Names]
FilterArgs == [fn : {<< >>}, drn : {None, "A", "A/filters", "B", "D"}, pat : {"lsst_r*", "lsst_r.h5", "*2*"}]
              \cup [fn : {<<"B", "lsst_r.h5">>}, drn : {None, "A/filters"}, pat : {"lsst_r2.h5"}]
              \cup [fn : {<<"", "">>}, drn : {None, "A/filters"}, pat : {"lsst_r.h5"}]
Args == IF What = "ssp" THEN SspArgs ELSE FilterArgs
Read(dk, ev, b) == IF What = "ssp" THEN SspFile(dk, ev, b) ELSE FilterFile(dk, Dirs, ev, b)
Init == /\ disk \in {Disk(o) : o \in SUBSET Places} /\ env \in Envs
        /\ a = << >> /\ out = None3
Ask == /\ out = None3 /\ a' \in Args /\ out' = Read(disk, env, a') /\ UNCHANGED <<disk, env>>
Spec == Init /\ [][Ask]_vars

Asked == out # None3
\* where the arguments point: a place for templates, a directory for filters
Where == IF a.fn # << >> THEN a.fn[1] ELSE IF a.drn # None THEN a.drn
         ELSE IF What = "ssp" THEN env ELSE FilterDir(env)
OnlyDesignated == Asked => (out.err = "" => out.dir = Where /\ Exists(disk, out.dir, out.name))
\* whatever lies in other directories
OthersDoNotMatter == Asked => Read({e \in disk : e.dir = Where}, env, a) = out
\* the variable matters only when nothing else is said
EnvOnlyIfNeeded == (Asked /\ (a.fn # << >> \/ a.drn # None)) => \A ev \in Envs : Read(disk, ev, a) = out
PathWins == (Asked /\ a.fn # << >>) =>
    \A b \in Args : b.fn = a.fn => Read(disk, env, b) = out
EmitCases == Asked => PrintT("CASE " \o ToJson([files |-> {<<e.dir, e.name>> : e \in disk}, env |-> env, a |-> a]))
=============================================================================
