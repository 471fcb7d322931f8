----------------------------- MODULE TargetsMC -----------------------------
(* All small projects, and all ways to build them.  What Targets computes
   declaration by declaration is compared with what the declarations say,
   read as a graph. *)
EXTENDS Targets, Integers
CONSTANTS MaxStmts, MaxBuild
VARIABLE closed   \* no more declarations, the build has begun
vars == <<tvars, closed>>

N == <<"n1", "n2", "n3", "n4", "n5">>
Base(n, pr) == [name |-> n, d |-> "", pr |-> pr, with |-> <<>>, whole |-> <<>>, deps |-> <<>>, largs |-> <<"-L" \o n>>, cargs |-> <<"-D" \o n>>,
                incs |-> <<>>, gens |-> <<>>, srcs |-> <<>>, objs |-> <<>>]
Tgt(n, pr, kind, dflt) == [Base(n, pr) EXCEPT !.srcs = <<"S:" \o n \o ".c">>]
                    @@ [k |-> "tgt", kind |-> kind, tname |-> n, impl |-> TRUE, dflt |-> dflt, over |-> <<>>, pic |-> "unset", pie |-> "unset", vis |-> "",
                        ver |-> <<>>, sover |-> "", prefix |-> "-", suffix |-> "-", cppargs |-> <<>>, expdyn |-> FALSE, rpath |-> ""]
Sts == {S.stmts[i] : i \in 1..Len(S.stmts)}
Of(k) == {st.name : st \in {x \in Sts : x.k \in k}}
LibsDecl == {st.name : st \in {x \in Sts : x.k = "tgt" /\ x.kind # "exe"}}
StaticDecl == {st.name : st \in {x \in Sts : x.k = "tgt" /\ x.kind = "static"}}
Links(b) == {b} \cup {[b EXCEPT !.with = <<x>>] : x \in LibsDecl} \cup {[b EXCEPT !.whole = <<x>>] : x \in StaticDecl}
            \cup {[b EXCEPT !.deps = <<x>>] : x \in Of({"dep"})} \cup {[b EXCEPT !.gens = <<x>>] : x \in Of({"gen"})}
            \cup {[b EXCEPT !.with = <<x>>, !.deps = <<y>>] : x \in LibsDecl, y \in Of({"dep"})}
Pool(n) ==
  UNION {Links(Base(n, "p0") @@ [k |-> "dep"])}
  \cup UNION {Links(Tgt(n, "p0", kind, dflt)) : kind \in {"static", "shared"}, dflt \in {TRUE, FALSE}}
  \cup Links(Tgt(n, "p1", "exe", TRUE))
  \cup {[Base(n, "p0") EXCEPT !.largs = <<>>] @@ [k |-> "gen", out |-> n \o ".h", src |-> FALSE]}
  \cup (IF Len(S.stmts) = 0 THEN {[k |-> "args", name |-> n, pr |-> "p1", all |-> FALSE, link |-> l, langs |-> <<"c">>, args |-> <<"-X">>] : l \in BOOLEAN} ELSE {})

Init == /\ S = [stmts |-> <<>>, opts |-> <<>>, copts |-> [c |-> <<"-Oc">>, cpp |-> <<>>], lopts |-> [c |-> <<"-Ol">>, cpp |-> <<>>],
                dirs |-> {"S:", "B:"}, lang |-> [s \in {"S:" \o N[i] \o ".c" : i \in 1..5} |-> "c"]]
        /\ pc = 0 /\ env = <<>> /\ pargs = <<>> /\ fail = FALSE /\ gdone = {} /\ cdone = {} /\ ldone = {} /\ closed = FALSE
Declare == /\ ~closed /\ pc = Len(S.stmts) /\ pc < MaxStmts
           /\ \E st \in Pool(N[pc + 1]) : S' = [S EXCEPT !.stmts = Append(@, st)]
           /\ UNCHANGED <<pc, env, pargs, fail, gdone, cdone, ldone, closed>>
Evaluate == Eval /\ UNCHANGED closed
CloseIt == /\ ~closed /\ Evaluated /\ Len(S.stmts) <= MaxBuild /\ closed' = TRUE /\ UNCHANGED tvars
Make == closed /\ UNCHANGED closed /\ (\/ \E g \in Gens : Generate(g)
                                       \/ \E t \in May : Link(t) \/ \E o \in env[t].objs : Compile(o[1], o[2]))
Next == Declare \/ Evaluate \/ CloseIt \/ Make
Spec == Init /\ [][Next]_vars

(* the declarations as a graph *)
St(n) == CHOOSE st \in Sts : st.name = n
RECURSIVE DepReach(_)
DepReach(D) == LET m == D \cup UNION {Range(St(x).deps) : x \in D} IN IF m = D THEN D ELSE DepReach(m)
DirectLibs(n) == UNION {Range(St(x).with) \cup Range(St(x).whole) : x \in {n} \cup DepReach(Range(St(n).deps))}
DirectWhole(n) == UNION {Range(St(x).whole) : x \in {n} \cup DepReach(Range(St(n).deps))}
RECURSIVE LibReach(_)
LibReach(L) == LET m == L \cup UNION {DirectLibs(x) : x \in {y \in L : St(y).kind = "static"}} IN IF m = L THEN L ELSE LibReach(m)
Done == pc = Len(S.stmts) /\ ~fail
(* everything the linked archives need, and nothing hidden behind a shared library *)
Closure == Done => \A t \in Targets : Linked(env[t]) =>
   /\ Libs(env[t]) = LibReach(DirectLibs(t))
   /\ env[t].th = DirectWhole(t) \cup UNION {DirectWhole(x) : x \in {y \in LibReach(DirectLibs(t)) : St(y).kind = "static"}}
(* arguments for the compiler come through dependency objects, not through libraries, and from no other project *)
Scope == Done => \A t \in Targets :
   Range(Defs(env[t], "c")) = {"-Oc", "-D" \o t} \cup {"-D" \o x : x \in DepReach(Range(St(t).deps))}
                              \cup (IF env[t].pr = "p1" /\ \E st \in Sts : st.k = "args" /\ ~st.link THEN {"-X"} ELSE {})
(* arguments for the linker come through dependency objects, also of the archives *)
LScope == Done => \A t \in Targets : Linked(env[t]) =>
   Range(LinkArgs(env[t])) = {"-Ol", "-L" \o t}
        \cup {"-L" \o x : x \in DepReach(Range(St(t).deps)) \cup UNION {DepReach(Range(St(y).deps)) : y \in {z \in LibReach(DirectLibs(t)) : St(z).kind = "static"}}}
        \cup (IF env[t].pr = "p1" /\ \E st \in Sts : st.k = "args" /\ st.link THEN {"-X"} ELSE {})
(* the build is never stuck before everything wanted is made, and nothing is made of a part which is not there *)
Live == closed => ENABLED Make \/ Built
Sound == closed => /\ \A t \in ldone : env[t].objs \subseteq cdone /\ Libs(env[t]) \subseteq ldone
                   /\ \A o \in cdone : env[o[1]].hdrs \subseteq gdone
                   /\ ldone \subseteq May
=============================================================================
