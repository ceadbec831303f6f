------------------------------- MODULE Loader -------------------------------
(***************************************************************************)
(* Loading data from disk.  A disk is a set of entries [dir, name, data];  *)
(* there is at most one entry at a place.  env is the directory the        *)
(* DSPS_DRN variable names, None when it is unset.                         *)
(***************************************************************************)
EXTENDS Paths

None == "None"
DefaultBn == "ssp_data_fsps_v3.2_lgmet_age.h5"
FilterDir(d) == d \o "/filters"

At(disk, d, n) == {e \in disk : e.dir = d /\ e.name = n}
Exists(disk, d, n) == At(disk, d, n) # {}
DataAt(disk, d, n) == (CHOOSE e \in At(disk, d, n) : TRUE).data

Put(disk, d, n, data) == (disk \ At(disk, d, n)) \cup {[dir |-> d, name |-> n, data |-> data]}
Drop(disk, d, n)      == disk \ At(disk, d, n)
MoveTo(disk, d, n, d2, n2) ==
    IF Exists(disk, d, n) THEN Put(Drop(disk, d, n), d2, n2, DataAt(disk, d, n)) ELSE disk

Fail(kind) == [err |-> kind, dir |-> "", name |-> ""]
Found(disk, d, n) == IF Exists(disk, d, n) THEN [err |-> "", dir |-> d, name |-> n]
                     ELSE Fail("AssertionError")
(* the file a call of the template loader reads; a.fn = <<dir, name>> or << >> *)
SspFile(disk, env, a) ==
    LET bn == IF a.bn = None THEN DefaultBn ELSE a.bn IN
    IF a.fn # << >> THEN Found(disk, a.fn[1], a.fn[2])
    ELSE IF a.drn # None THEN Found(disk, a.drn, bn)
    ELSE IF env = None THEN Fail("ValueError")
    ELSE Found(disk, env, bn)

(* the file a call of the filter loader reads.  dirs are the directories     *)
(* that exist                                                                *)
FilterFile(disk, dirs, env, a) ==
    IF a.fn # << >> THEN Found(disk, a.fn[1], a.fn[2])
    ELSE IF a.drn = None /\ env = None THEN Fail("ValueError")
    ELSE LET d == IF a.drn # None THEN a.drn ELSE FilterDir(env)
             hits == {e \in disk : e.dir = d /\ Glob(a.pat, e.name)} IN
         IF d \notin dirs \/ Cardinality(hits) # 1 THEN Fail("AssertionError")
         ELSE [err |-> "", dir |-> d, name |-> (CHOOSE e \in hits : TRUE).name]

(* The same where links are on the disk: what is found is found at its real *)
(* place.                                                                   *)
SspFileVia(disk, fs, env, a) ==
    IF a.fn = << >> /\ a.drn = None /\ env = None THEN Fail("ValueError")
    ELSE LET bn == IF a.bn = None THEN DefaultBn ELSE a.bn
             at == IF a.fn # << >> THEN RealPlace(fs, a.fn[1], a.fn[2])
                   ELSE RealPlace(fs, IF a.drn # None THEN a.drn ELSE env, bn)
         IN Found(disk, at[1], at[2])
FilterFileVia(disk, fs, env, a) ==
    IF a.fn # << >> THEN LET at == RealPlace(fs, a.fn[1], a.fn[2]) IN Found(disk, at[1], at[2])
    ELSE IF a.drn = None /\ env = None THEN Fail("ValueError")
    ELSE LET d == Path(Real(fs, IF a.drn # None THEN a.drn ELSE FilterDir(env)))
             names == {e.name : e \in {e \in disk : e.dir = d}} \cup LinksIn(fs, d)
             hits == {n \in names : Glob(a.pat, n)} IN
         IF d \notin fs.dirs \/ Cardinality(hits) # 1 THEN Fail("AssertionError")
         ELSE LET at == RealPlace(fs, d, CHOOSE n \in hits : TRUE) IN Found(disk, at[1], at[2])
=============================================================================
