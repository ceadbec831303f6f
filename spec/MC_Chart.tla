------------------------------ MODULE MC_Chart ------------------------------
(* Charts are drawn one after the other.  Within a chart the two models are
   drawn curve by curve and the legend is attached last; when a chart is done
   its legend names the model that was drawn in that style, and a later chart
   leaves an earlier one as it was. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Params, Times, MaxCharts
VARIABLES done,     \* finished charts
          cur       \* the chart being drawn: [ask, drawn, legend]
vars == <<done, cur>>
Styles == {"solid", "dashed"}
Idle == [ask |-> << >>, drawn |-> {}, legend |-> << >>]
Init == done = << >> /\ cur = Idle
Asked == cur.ask # << >>
Ask == ~Asked /\ Len(done) < MaxCharts
       /\ \E p \in Params, q \in Params \cup {"none given"}, named, save \in BOOLEAN :
            cur' = [Idle EXCEPT !.ask = <<p, q, named, save>>]
       /\ UNCHANGED done
Second == IF cur.ask[2] = "none given" THEN "default" ELSE cur.ask[2]
Wanted == {<<"solid", t, cur.ask[1]>> : t \in Times} \cup {<<"dashed", t, Second>> : t \in Times}
\* in any order of time; both models of a time together
Draw == Asked /\ \E t \in Times :
          /\ ~\E d \in cur.drawn : d[2] = t
          /\ cur' = [cur EXCEPT !.drawn = @ \cup {w \in Wanted : w[2] = t}]
          /\ UNCHANGED done
Label1 == IF cur.ask[3] THEN "mine" ELSE "new model"
Label2 == IF cur.ask[3] THEN "theirs" ELSE "default model"
Label == Asked /\ cur.drawn = Wanted /\ cur.legend = << >>
         /\ cur' = [cur EXCEPT !.legend = <<[label |-> Label1, style |-> "solid"],
                                             [label |-> Label2, style |-> "dashed"]>>]
         /\ UNCHANGED done
Finish == cur.legend # << >> /\ done' = Append(done, cur) /\ cur' = Idle
Next == Ask \/ Draw \/ Label \/ Finish
Spec == Init /\ [][Next]_vars
ModelOf(c, lbl) == {d[3] : d \in {x \in c.drawn : \E i \in 1..2 : c.legend[i].label = lbl /\ c.legend[i].style = x[1]}}
Truthful == \A i \in 1..Len(done) :
    LET c == done[i] a == c.ask IN
    /\ ModelOf(c, IF a[3] THEN "mine" ELSE "new model") = {a[1]}
    /\ ModelOf(c, IF a[3] THEN "theirs" ELSE "default model") = {IF a[2] = "none given" THEN "default" ELSE a[2]}
    /\ \A s \in Styles : {d[2] : d \in {x \in c.drawn : x[1] = s}} = Times
Kept == [][Len(done') >= Len(done) /\ SubSeq(done', 1, Len(done)) = done]_vars
EmitCases == ~(Len(done) = MaxCharts /\ ~Asked) \/ PrintT("CASE " \o ToJson([asks |-> [i \in 1..MaxCharts |-> done[i].ask]]))
=============================================================================
