------------------------------- MODULE FmtMC -------------------------------
(* All short histories of the formatter's runs over two files, for every     *)
(* formatter which keeps Fmt's obligations, and the laws of Norm and Style   *)
(* on small token sequences.                                                 *)
EXTENDS Fmt
CONSTANT MaxRuns
VARIABLES n, hist
vars == <<fvars, n, hist>>
Names == {"a", "b"}
Contents == 1..3      \* 3 cannot be parsed
Usable(cfg, c) == c \in {1, 2}
Lists == {<<"a">>, <<"b">>, <<"a", "b">>, <<"b", "gone">>}
Modes == {"stdout", "inplace", "check"}
Init == /\ file \in [Names -> Contents] /\ ro \in {{}, {"a"}} /\ F = <<>> /\ run = Idle /\ n = 0 /\ hist = <<>>
File(x) == IF x \in Names THEN file[x] ELSE 0
Begin == n < MaxRuns /\ n' = n + 1 /\ \E m \in Modes, ns \in Lists : Start(m, 1, ns) /\ hist' = Append(hist, [mode |-> m, names |-> ns, before |-> file])
Gone == run.on /\ run.todo # <<>> /\ Cur = "gone" /\ run' = [run EXCEPT !.todo = Tail(@), !.bad = TRUE] /\ UNCHANGED <<file, ro, F>>
Step == /\ UNCHANGED <<n, hist>>
        /\ \/ Gone
           \/ run.on /\ run.todo # <<>> /\ Cur # "gone" /\ (Fail(Usable) \/ \E r \in {1, 2} : Done(Usable, r))
Finish == End /\ hist' = [hist EXCEPT ![Len(hist)] = [mode |-> @.mode, names |-> @.names, before |-> @.before, after |-> file, rc |-> run.bad, out |-> run.res]]
          /\ UNCHANGED n
Next == Begin \/ Step \/ Finish
Spec == Init /\ [][Next]_vars
Type == file \in [Names -> Contents]
H(i) == hist[i]
Ended == run = Idle
Law == Ended =>
  /\ \A i \in 1..Len(hist) :
       /\ H(i).mode # "inplace" => H(i).after = H(i).before
       /\ \A x \in Names : x \notin {H(i).names[j] : j \in 1..Len(H(i).names)} \/ H(i).before[x] = 3 \/ x \in ro => H(i).after[x] = H(i).before[x]
       \* after formatting in place there is nothing left to do
       /\ (i < Len(hist) /\ H(i).mode = "inplace" /\ ~H(i).rc /\ H(i + 1).names = H(i).names) => (~H(i + 1).rc /\ H(i + 1).after = H(i).after) = TRUE
       \* the check says whether formatting in place would do something
       /\ (i < Len(hist) /\ H(i).mode = "check" /\ H(i + 1).mode = "inplace" /\ H(i + 1).names = H(i).names)
            => (H(i).rc = (H(i + 1).rc \/ H(i + 1).after # H(i + 1).before)) = TRUE \/ ro # {}
       \* standard output is what in place would have left in the files
       /\ (i < Len(hist) /\ H(i).mode = "stdout" /\ H(i + 1).mode = "inplace" /\ H(i + 1).names = H(i).names /\ ~H(i + 1).rc)
            => H(i).out = [j \in 1..Len(H(i).names) |-> H(i + 1).after[H(i).names[j]]]
  /\ \A k \in DOMAIN F : F[<<k[1], F[k]>>] = F[k]
Kept == [][ro' = ro /\ (file' # file => run.on /\ run.mode = "inplace")]_vars

\* a formatter with options for small programs, and the laws of the relation
W(x) == <<"w", x, "">>
Q(x) == <<"p", x, "">>
NL == <<"n", "\n", "">>
Cm(x) == <<"c", x, "">>
Same == {<< <<W("a"), Q("="), Q("["), W("x"), Q("]")>>, <<W("a"), Q("="), Q("["), NL, W("x"), Q(","), NL, Q("]"), NL>> >>,
         << <<W("a"), Q("="), Q("("), W("x"), Q(")"), NL>>, <<W("a"), Q("="), W("x")>> >>,
         << <<W("a"), Q("="), Q("("), Q("("), W("x"), Q(")"), Q(")"), NL>>, <<W("a"), Q("="), W("x")>> >>,
         << <<W("if"), Q("("), NL, W("x"), W("and"), W("y"), NL, Q(")"), NL, W("endif")>>, <<W("if"), W("x"), W("and"), W("y"), NL, NL, W("endif")>> >>,
         << <<W("files"), Q("("), Q("["), W("x"), Q(","), W("y"), Q("]"), Q(","), Q(")")>>, <<W("files"), Q("("), W("y"), Q(","), W("x"), Q(")"), NL>> >>,
         << <<W("files"), Q("("), W("x"), Q("("), W("a"), Q(","), W("b"), Q(")"), Q(","), W("y"), Q(")")>>,
            <<W("files"), Q("("), W("y"), Q(","), W("x"), Q("("), W("a"), Q(","), W("b"), Q(")"), Q(")"), NL>> >>}
Differ == {<< <<W("a"), Q("="), Q("("), W("x"), Q(")"), Q("+"), Q("("), W("y"), Q(")"), NL>>, <<W("a"), Q("="), W("x"), Q(")"), Q("+"), Q("("), W("y"), NL>> >>,
           << <<W("a"), NL, W("b")>>, <<W("a"), W("b"), NL>> >>,
           << <<W("f"), Q("("), W("x"), Q(","), W("y"), Q(")")>>, <<W("f"), Q("("), W("y"), Q(","), W("x"), Q(")")>> >>,
           << <<W("f"), Q("("), Q("["), W("x"), Q("]"), Q(")")>>, <<W("f"), Q("("), W("x"), Q(")")>> >>,
           << <<W("o"), Q("."), W("files"), Q("("), W("x"), Q(","), W("y"), Q(")")>>, <<W("o"), Q("."), W("files"), Q("("), W("y"), Q(","), W("x"), Q(")")>> >>,
           << <<W("files"), Q("("), W("x"), Q(","), W("x"), Q(")")>>, <<W("files"), Q("("), W("x"), Q(")")>> >>,
           << <<W("a"), Cm("#1"), NL, W("b"), Cm("#2")>>, <<W("a"), Cm("#2"), NL, W("b"), Cm("#1")>> >>,
           << <<W("a"), Cm("#1"), NL, W("b")>>, <<W("a"), NL, W("b"), Cm("#1")>> >>,
           << <<W("a"), Cm("#1"), NL>>, <<W("a"), NL>> >>,
           << <<W("a"), Q("="), Q("("), W("x"), Q("+"), W("y"), Q(")"), Q("*"), W("z")>>, <<W("a"), Q("="), W("x"), Q("+"), W("y"), Q("*"), W("z")>> >>}
ASSUME /\ \A p \in Same : Keeps(p[1], p[2]) /\ Keeps(p[2], p[1])
       /\ \A p \in Differ : ~Keeps(p[1], p[2])
Cfg == [max |-> 80, indent_by |-> "  ", space_array |-> FALSE, kwa |-> TRUE, wide_colon |-> FALSE, no_single |-> FALSE]
T3(k, x, w) == <<k, x, w>>
ASSUME /\ Style(Cfg, <<T3("w", "a", ""), T3("p", "=", " "), T3("p", "[", " "), T3("w", "x", ""), T3("p", "]", ""), NL>>) = ""
       /\ Style(Cfg, <<T3("w", "a", ""), T3("p", "=", " "), T3("p", "[", ""), T3("w", "x", ""), T3("p", "]", ""), NL>>) # ""
       /\ Style(Cfg, <<T3("w", "if", ""), T3("w", "a", " "), NL, T3("w", "b", "  "), NL, T3("w", "endif", ""), NL>>) = ""
       /\ Style(Cfg, <<T3("w", "if", ""), T3("w", "a", " "), NL, T3("w", "b", ""), NL, T3("w", "endif", ""), NL>>) # ""
=============================================================================
