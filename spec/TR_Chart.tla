------------------------------ MODULE TR_Chart ------------------------------
(* Trace validation of the diagnostic chart: st is the sequence of charts
   drawn so far, as they came out of the code. *)
EXTENDS Chart, TraceBase
Begin == IsOp("begin") /\ Step({}, << >>)
E9 == N("1e-9")
Num(c) == [x |-> In(c.x), y |-> In(c.y), style |-> c.style, color |-> c.color]
\* the points of a file: <<log mass, log metallicity relative to the sun>>
Published(pt, data) ==
    \E i \in 1..Len(data) : Close(pt[1], data[i][1], E9, E9) /\ Close(pt[2], Absolute(data[i][2]), E9, E9)
DoPlot ==
    /\ IsOp("plot")
    /\ Step(Returned(Ev,
         LET cs == TLCEval([i \in 1..Len(Ev.out.curves) |-> Num(Ev.out.curves[i])])
             g == Ev.out.legend
             p == In(Ev.in.p) q == In(Ev.in.q)
             one == Says(g, Ev.in.label1) two == Says(g, Ev.in.label2)
             StyleOf(e) == g[CHOOSE i \in e : TRUE].style
             Of(s) == {k \in 1..Len(cs) : cs[k].style = s}
             Draws(s, w) ==
                /\ \A i \in 1..Len(ChartTimes) : \E k \in Of(s) : DrawsModel(cs[k], w, ChartTimes[i], E9, E9)
                /\ \A k \in Of(s) : \E i \in 1..Len(ChartTimes) : DrawsModel(cs[k], w, ChartTimes[i], E9, E9)
             Colored(tag, t) ==
                \A e \in Tagged(g, tag) : g[e].marker = "None" =>
                   \E k \in Of(StyleOf(one)) : cs[k].color = g[e].color /\ DrawsModel(cs[k], p, t, E9, E9)
             Points(who) == \A e \in Tagged(g, who) :
                \E m \in 1..Len(Ev.out.points) :
                   LET pts == Ev.out.points[m] IN
                   /\ pts.marker = g[e].marker /\ pts.color = g[e].color
                   /\ Len(pts.x) * 3 >= Len(Ev.in.data[who])
                   /\ LET d == In(Ev.in.data[who]) x == In(pts.x) y == In(pts.y) IN
                      \A i \in 1..Len(x) : Published(<<x[i], y[i]>>, d)
         IN IF Cardinality(one) # 1 \/ Cardinality(two) # 1
            THEN F("the legend has one entry for each of the two models", FALSE)
            ELSE F("the two models are drawn in different styles", StyleOf(one) # StyleOf(two))
              \cup F("what the legend calls the first model is drawn with the first parameters", Draws(StyleOf(one), p))
              \cup F("what the legend calls the second model is drawn with the second parameters", Draws(StyleOf(two), q))
              \cup F("the curves reach across the chart",
                     \A k \in 1..Len(cs) : NLe(cs[k].x[1], N(Ev.out.xlim[1])) /\ NGe(cs[k].x[Len(cs[k].x)], N(Ev.out.xlim[2])))
              \cup F("one color, one time", \A i \in 1..Len(ChartTimes) :
                     \E k \in Of(StyleOf(one)), m \in Of(StyleOf(two)) :
                        cs[k].color = cs[m].color /\ DrawsModel(cs[k], p, ChartTimes[i], E9, E9)
                        /\ DrawsModel(cs[m], q, ChartTimes[i], E9, E9))
              \cup F("the legend's z=3 and z=0 colors are those of the earliest and latest curve",
                     Tagged(g, "z=3") # {} /\ Tagged(g, "z=0") # {} /\ Colored("z=3", ChartTimes[1]) /\ Colored("z=0", ChartTimes[5]))
              \cup F("measured points are the published ones as absolute metallicities",
                     \A who \in {"Maiolino", "Kirby", "Gallazzi"} : Tagged(g, who) # {} /\ Points(who))
              \cup F("the figure is saved where asked and nowhere else", Ev.out.files = Ev.in.files)
              \cup F("a figure is returned", Ev.out.figure)
              \cup F("figures that others have open stay open", Ev.out.open)
              \cup F("earlier charts stay as they were",
                     Ev.out.before = st /\ \A i \in 1..Len(st) : Ev.out.after[i] = st[i])),
       IF Ev.out.err = "" THEN Ev.out.after ELSE st)
TraceNext == Begin \/ DoPlot
TraceSpec == TraceStart(<< >>) /\ [][TraceNext]_traceVars
=============================================================================
