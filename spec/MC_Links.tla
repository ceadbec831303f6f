------------------------------ MODULE MC_Links ------------------------------
(***************************************************************************)
(* The loaders on disks with symbolic links: to directories and to files,   *)
(* to other links, to nothing and to themselves, followed by .. or not.     *)
(***************************************************************************)
EXTENDS Loader, Json
CONSTANT What
VARIABLES l, m, f, env, a, out
vars == <<l, m, f, env, a, out>>
Sub == "A/filters"
Dirs == {"A", Sub, "B", "B/filters"}
Name == "x.h5"
\* at the root a link called L, in B a link called M, in B and A/filters links to files
Ls == {"", "A", Sub, "B"}
Ms == {"", "A", "L", "B/M"}
Fs == {"", "A/x.h5", "L/x.h5", "B/none.h5", "B/f.h5"}
LinkMap(x, y, z) == ("Z" :> "A") @@ (IF x = "" THEN << >> ELSE "L" :> x) @@ (IF y = "" THEN << >> ELSE "B/M" :> y)
                    @@ (IF z = "" THEN << >> ELSE ("B/f.h5" :> z) @@ ("A/filters/f.h5" :> z))
Fsys == [dirs |-> Dirs, links |-> LinkMap(l, m, f)]
Disk == {[dir |-> d, name |-> Name, data |-> d] : d \in Dirs}
Ways == {"L", "L/..", "B/M", "B/M/..", "L/filters", "B/M/filters", "B/../L", "A/./filters", "L/../B", "A/filters/../.."}
Envs == IF What = "ssp" THEN {None, "L/..", "B/M"} ELSE {None, "L", "B/M", "L/.."}
SspArgs == [fn : {<< >>}, drn : {None} \cup Ways, bn : {Name}]
           \cup [fn : {<<w, Name>> : w \in Ways} \cup {<<"B", "f.h5">>, <<"L", "f.h5">>}, drn : {None}, bn : {None}]
FilterArgs == [fn : {<< >>}, drn : {None} \cup Ways, pat : {Name, "f.*", "?.h5"}]
              \cup [fn : {<<w, Name>> : w \in Ways} \cup {<<"B", "f.h5">>}, drn : {None}, pat : {None}]
Args == IF What = "ssp" THEN SspArgs ELSE FilterArgs
Read(fs, ev, b) == IF What = "ssp" THEN SspFileVia(Disk, fs, ev, b) ELSE FilterFileVia(Disk, fs, ev, b)
Unasked == [err |-> "none", dir |-> "", name |-> ""]
Init == l \in Ls /\ m \in Ms /\ f \in Fs /\ env \in Envs /\ a = << >> /\ out = Unasked
Ask == out = Unasked /\ a' \in {b \in Args : env # None => b.drn = None /\ b.fn = << >>}
       /\ out' = Read(Fsys, env, a') /\ UNCHANGED <<l, m, f, env>>
Spec == Init /\ [][Ask]_vars
Asked == out # Unasked
\* what is read is a file, at its real place
RealFiles == (Asked /\ out.err = "") => Exists(Disk, out.dir, out.name) /\ out.dir \in Dirs
\* links do not matter to paths that meet none
OnlyOnTheWay == (Asked /\ a.fn # << >> /\ a.fn[1] = "A/./filters") =>
                   out = Read([Fsys EXCEPT !.links = << >>], env, a)
\* a link and what it leads to are the same place
SamePlace == (Asked /\ l # "" /\ a.drn = "L" /\ a.fn = << >>) => out = Read(Fsys, env, [a EXCEPT !.drn = l])
\* .. after a link leaves the directory it leads to, wherever the link is
UpFromThere == (Asked /\ l = Sub /\ a.fn = <<"L/..", Name>>) => out.dir = "A"
Listed(fn) == {<<x, fn[x]>> : x \in DOMAIN fn}
EmitCases == Asked => PrintT("CASE " \o ToJson([links |-> Listed(Fsys.links), dirs |-> Dirs,
    files |-> {<<e.dir, e.name>> : e \in Disk}, env |-> env, a |-> a]))
=============================================================================
