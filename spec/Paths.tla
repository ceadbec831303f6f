------------------------------- MODULE Paths -------------------------------
(* Where a path leads when some places are symbolic links.  fs.links maps    *)
(* the place of a link to the path it stands for, fs.dirs are the            *)
(* directories; all of them are told from one root.                          *)
EXTENDS Strings
RECURSIVE Parts(_)
Parts(p) == IF p = "" THEN << >> ELSE
    LET k == FindFrom(p, "/", 1) IN
    IF k = 0 THEN <<p>> ELSE (IF k = 1 THEN << >> ELSE <<SubSeq(p, 1, k - 1)>>) \o Parts(Rest(p, k + 1))
RECURSIVE Path(_)
Path(s) == IF s = << >> THEN "" ELSE IF Len(s) = 1 THEN s[1] ELSE s[1] \o "/" \o Path(Tail(s))
Up(s) == IF s = << >> THEN << >> ELSE SubSeq(s, 1, Len(s) - 1)
Nowhere == <<"?">>
RECURSIVE Walk(_, _, _, _)
\* one step after the other, as the system does: .. leaves where a link led to
Walk(fs, at, todo, fuel) ==
    IF fuel = 0 THEN Nowhere
    ELSE IF todo = << >> THEN at
    ELSE LET h == todo[1] rest == Tail(todo) q == Append(at, h) IN
         IF h = "." THEN Walk(fs, at, rest, fuel)
         ELSE IF h = ".." THEN Walk(fs, Up(at), rest, fuel)
         ELSE IF Path(q) \in DOMAIN fs.links
              THEN Walk(fs, << >>, Parts(fs.links[Path(q)]) \o rest, fuel - 1)
         ELSE IF rest # << >> /\ Path(q) \notin fs.dirs THEN Nowhere
         ELSE Walk(fs, q, rest, fuel)
Real(fs, p) == Walk(fs, << >>, Parts(p), 10)
\* the real place of name n in directory d
RealPlace(fs, d, n) == LET w == Walk(fs, << >>, Parts(d) \o Parts(n), 10) IN
    IF w = << >> THEN <<"", "">> ELSE <<Path(Up(w)), w[Len(w)]>>
\* the names of the links in a (real) directory
LinksIn(fs, d) == {n \in {LET w == Parts(p) IN IF Path(Up(w)) = d THEN w[Len(w)] ELSE "/" : p \in DOMAIN fs.links} : n # "/"}
=============================================================================
