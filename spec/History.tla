------------------------------- MODULE History ------------------------------
(***************************************************************************)
(* Estimator objects over time: generators, the state an object keeps      *)
(* between fits, and the solver it warm starts within a fit.  What a fit   *)
(* computes is an uninterpreted function (a term) of what it may depend    *)
(* on.  HistoryTrace checks recorded histories of real objects against the *)
(* same dependencies; the histories come from here.                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt

CONSTANTS Objs,       \* objects, all with the same parameters
          Data, Gens, MaxOps, Boots, Regs

VARIABLES gens,       \* caller's generators: term
          glob,       \* NumPy's global generator
          seedOf,     \* how an object was seeded: <<"gen", g>> or <<"int", s>>
          held,       \* the generator state an object seeded by an int keeps
          fitted,     \* what the last fit of an object returned
          used,       \* fits of an object
          results,    \* <<key, result>> of all fits
          run,        \* the running fit: object, data, state, position
          solver,     \* per object: what its solver would start from
          starts,     \* starting points of the sweeps of the running fit
          ops
vars == <<gens, glob, seedOf, held, fitted, used, results, run, solver, starts, ops>>

Cold == <<"cold">>
None == <<"none">>
NoRun == [o |-> 0, d |-> 0, pre |-> None, b |-> 0, r |-> 0, path |-> <<>>]
Seeds == {[how |-> "int", of |-> s] : s \in {1, 2}} \cup {[how |-> "gen", of |-> g] : g \in Gens}
State(o) == IF seedOf[o].how = "gen" THEN gens[seedOf[o].of] ELSE held[o]

Init ==
  /\ gens = [g \in Gens |-> <<"gen", g>>] /\ glob = <<"glob">>
  /\ seedOf \in [Objs -> Seeds]
  /\ held = [o \in Objs |-> IF seedOf[o].how = "int" THEN <<"seed", seedOf[o].of>> ELSE None]
  /\ fitted = [o \in Objs |-> None] /\ used = [o \in Objs |-> 0]
  /\ results = {} /\ run = NoRun /\ solver = [o \in Objs |-> Cold] /\ starts = <<>> /\ ops = 0

(* a fit draws all its bootstraps first, then sweeps the regularizations of  *)
(* one bootstrap after the other                                           *)
Begin(o, d) ==
  /\ run = NoRun /\ ops < MaxOps
  /\ run' = [o |-> o, d |-> d, pre |-> State(o), b |-> 1, r |-> 1, path |-> <<>>]
  /\ LET post == <<"next", State(o), d>> IN
       IF seedOf[o].how = "gen" THEN gens' = [gens EXCEPT ![seedOf[o].of] = post] /\ UNCHANGED held
       ELSE held' = [held EXCEPT ![o] = post] /\ UNCHANGED gens
  /\ starts' = <<>> /\ ops' = ops + 1
  /\ UNCHANGED <<glob, seedOf, fitted, used, results, solver>>

Split(pre, d, b) == <<"split", pre, d, b>>

Solve ==
  /\ run # NoRun /\ run.b <= Boots
  /\ LET o == run.o
         from == IF run.r = 1 THEN Cold ELSE solver[o]        \* never across bootstraps
         sol == <<"solution", Split(run.pre, run.d, run.b), run.r>>
     IN /\ starts' = Append(starts, [b |-> run.b, r |-> run.r, from |-> from])
        /\ solver' = [solver EXCEPT ![o] = sol]
        /\ run' = IF run.r < Regs THEN [run EXCEPT !.r = @ + 1, !.path = Append(@, sol)]
                  ELSE [run EXCEPT !.r = 1, !.b = @ + 1, !.path = Append(@, sol)]
  /\ UNCHANGED <<gens, glob, seedOf, held, fitted, used, results, ops>>

Finish ==
  /\ run # NoRun /\ run.b > Boots
  /\ LET res == <<"result", run.path>> IN
       /\ fitted' = [fitted EXCEPT ![run.o] = res]
       /\ results' = results \cup {<<[d |-> run.d, pre |-> run.pre], res>>}
  /\ used' = [used EXCEPT ![run.o] = @ + 1] /\ run' = NoRun
  /\ UNCHANGED <<gens, glob, seedOf, held, solver, starts, ops>>

(* other code uses the global generator                                     *)
Touch == run = NoRun /\ ops < MaxOps /\ glob' = <<"touched", glob>> /\ ops' = ops + 1
         /\ UNCHANGED <<gens, seedOf, held, fitted, used, results, run, solver, starts>>

Next == Touch \/ Solve \/ Finish \/ \E o \in Objs, d \in Data : Begin(o, d)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

(* results are a function of the data and of the state of the generator     *)
Functional == \A x, y \in results : x[1] = y[1] => x[2] = y[2]
(* a solver starts cold, or from the solution before it on the same path    *)
OwnStart == \A i \in DOMAIN starts :
  IF starts[i].r = 1 THEN starts[i].from = Cold
  ELSE /\ starts[i].from[2][4] = starts[i].b /\ starts[i].from[3] = starts[i].r - 1
       /\ run # NoRun => starts[i].from[2][3] = run.d
(* equal seeds, equal first results, whatever happened in between           *)
SeedDecides == \A x, y \in results : (x[1].pre = y[1].pre /\ x[1].d = y[1].d) => x = y
(* the global generator changes only when other code uses it                *)
GlobalAlone == [][glob' # glob => (run = NoRun /\ fitted' = fitted)]_vars
SplitsDiffer == run # NoRun => \A b, c \in 1..Boots : b # c => Split(run.pre, run.d, b) # Split(run.pre, run.d, c)
Ends == <>(ops = MaxOps /\ run = NoRun)

(***************************************************************************)
(* histories for the implementation: who fits what, between draws from the *)
(* global generator; object 3 and above are made for one fit               *)
(***************************************************************************)
Ops == [op : {"fit"}, o : 1..2, d : 1..6] \cup [op : {"query"}, o : 1..2, d : 1..2] \cup [op : {"touch"}, o : {0}, d : {0}]
Histories(n) == [1..n -> Ops]
Fits(h) == Cardinality({i \in DOMAIN h : h[i].op = "fit"})
Useful(h) ==
  /\ Fits(h) >= 2
  /\ \A i \in DOMAIN h : h[i].op = "query" => \E j \in 1..i - 1 : h[j].op = "fit" /\ h[j].o = h[i].o
  /\ \A i \in DOMAIN h : h[i].op = "fit" /\ h[i].o = 2 => \E j \in 1..i - 1 : h[j].op = "fit" /\ h[j].o = 1
Written == "OUT" \notin DOMAIN IOEnv \/
  ndJsonSerialize(IOEnv.OUT, SetToSeq({h \in Histories(3) : Useful(h)}))
ASSUME Written
ScnInit == gens = 0 /\ glob = 0 /\ seedOf = 0 /\ held = 0 /\ fitted = 0 /\ used = 0 /\ results = 0
           /\ run = 0 /\ solver = 0 /\ starts = 0 /\ ops = 0
ScnNext == FALSE /\ UNCHANGED vars
=============================================================================
