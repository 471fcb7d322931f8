-------------------------------- MODULE Fmt --------------------------------
(* The formatter.  A program is a sequence of tokens <<kind, text, space>>:  *)
(* "n" end of line, "c" comment, "s" string, "m" string over several lines,  *)
(* "w" word, "p" punctuation; space is the white space before it.            *)
(* Norm is what formatting must keep, Style is what a formatted program      *)
(* looks like, the state machine is what happens to files.                   *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

K(t) == t[1]
X(t) == t[2]
Ws(t) == t[3]
P(t, s) == K(t) = "p" /\ X(t) = s
Openers == {"(", "[", "{"}
Closers == {")", "]", "}"}
IsOpen(t) == K(t) = "p" /\ X(t) \in Openers
IsClose(t) == K(t) = "p" /\ X(t) \in Closers
Bag(s) == [x \in {s[i] : i \in 1..Len(s)} |-> Cardinality({i \in 1..Len(s) : s[i] = x})]
Last1(s) == s[Len(s)]
NONE == <<"n", "", "">>

-----------------------------------------------------------------------------
(* Norm: the statements without layout.  Gone are comments, line breaks in   *)
(* brackets, commas before a closing bracket and brackets around the whole   *)
(* of the right side of an assignment, a condition or what foreach goes      *)
(* over.  The arguments of files() are a bag.                                *)

\* a.out: tokens, a.m: for a closing bracket where its opening one is
Match(a) == IF a.out = <<>> THEN 0 ELSE Last1(a.m)
RECURSIVE Strip(_, _, _)
Strip(out, m, r) ==     \* brackets around out[r..]
  IF r > 0 /\ r < Len(out) /\ out[r][2] = "(" /\ m[Len(out)] = r
  THEN Strip(SubSeq(out, 1, r - 1) \o SubSeq(out, r + 1, Len(out) - 1),
             [i \in 1..(Len(out) - 2) |-> IF i < r THEN m[i] ELSE IF m[i + 1] = 0 THEN 0 ELSE m[i + 1] - 1], r)
  ELSE out
EndStmt(a) ==
  IF Len(a.out) < a.b THEN [a EXCEPT !.rhs = 0]
  ELSE LET o == Append(Strip(a.out, a.m, a.rhs), <<"n", "">>)
       IN [a EXCEPT !.out = o, !.m = [i \in 1..Len(o) |-> 0], !.b = Len(o) + 1, !.rhs = 0]
RECURSIVE Unlist(_, _, _)
Unlist(out, m, at) ==   \* an array as the only argument
  IF Len(out) > at /\ out[at + 1][2] = "[" /\ m[Len(out)] = at + 1
  THEN Unlist(SubSeq(out, 1, at) \o SubSeq(out, at + 2, Len(out) - 1),
              [i \in 1..(Len(out) - 2) |-> IF i <= at THEN m[i] ELSE IF m[i + 1] = 0 THEN 0 ELSE m[i + 1] - 1], at)
  ELSE out
Elements(s) ==
  LET f == FoldLeft(LAMBDA a, t : IF t[2] = "," /\ t[1] = "p" /\ a.d = 0 THEN [a EXCEPT !.els = Append(@, a.cur), !.cur = <<>>]
                                  ELSE [a EXCEPT !.cur = Append(@, t),
                                                 !.d = IF t[1] # "p" THEN @ ELSE IF t[2] \in Openers THEN @ + 1 ELSE IF t[2] \in Closers THEN @ - 1 ELSE @],
                    [els |-> <<>>, cur |-> <<>>, d |-> 0], s)
  IN Append(f.els, f.cur)
StartsRhs(a, t) == \/ K(t) = "p" /\ X(t) \in {"=", "+="}
                   \/ P(t, ":") /\ Len(a.out) >= a.b /\ a.out[a.b] = <<"w", "foreach">>
                   \/ K(t) = "w" /\ X(t) \in {"if", "elif", "return"} /\ Len(a.out) < a.b
NormStep(a, t) ==
  LET n == Len(a.out)
      push(x) == [x EXCEPT !.out = Append(@, <<K(t), X(t)>>), !.m = Append(@, 0)]
  IN CASE K(t) = "c" -> [a EXCEPT !.com = Append(@, <<X(t), 2 * a.k + (IF n >= a.b THEN 1 ELSE 0)>>)]
       [] K(t) = "n" -> IF a.st = <<>> THEN [EndStmt(a) EXCEPT !.k = IF n >= a.b THEN @ + 1 ELSE @] ELSE a
       [] IsOpen(t) -> [push(a) EXCEPT !.st = Append(@, [at |-> n + 1, files |-> X(t) = "(" /\ n > 0 /\ a.out[n] = <<"w", "files">>
                                                                                 /\ (n > 1 => a.out[n - 1][2] # ".")])]
       [] IsClose(t) /\ a.st # <<>> ->
            LET o == Last1(a.st)
                a1 == IF n > 0 /\ a.out[n] = <<"p", ",">> THEN [a EXCEPT !.out = Front(@), !.m = Front(@)] ELSE a
                body == Unlist(a1.out, a1.m, o.at)
                a2 == IF o.files /\ Len(body) = o.at THEN [a1 EXCEPT !.out = body, !.m = SubSeq(@, 1, o.at)]
                      ELSE IF o.files
                      THEN [a1 EXCEPT !.out = SubSeq(body, 1, o.at) \o <<<<"files", "", Bag(Elements(SubSeq(body, o.at + 1, Len(body))))>>>>,
                                      !.m = SubSeq(@, 1, o.at) \o <<0>>]
                      ELSE a1
            IN [a2 EXCEPT !.out = Append(@, <<"p", X(t)>>), !.m = Append(@, o.at), !.st = Front(@)]
       [] OTHER -> IF a.st = <<>> /\ a.rhs = 0 /\ StartsRhs(a, t)
                   THEN [push(a) EXCEPT !.rhs = n + 2]
                   ELSE push(a)
Norm(s) == FoldLeft(NormStep, [out |-> <<>>, m |-> <<>>, st |-> <<>>, b |-> 1, rhs |-> 0, com |-> <<>>, k |-> 0], Append(s, NONE))
HasFiles(n) == \E i \in 1..Len(n.out) : n.out[i][1] = "files"
SameComments(a, b) == IF HasFiles(a) THEN Bag(a.com) = Bag(b.com) ELSE a.com = b.com
Keeps(s, r) == LET a == TLCEval(Norm(s)) b == TLCEval(Norm(r)) IN a.out = b.out /\ SameComments(a, b) = TRUE

-----------------------------------------------------------------------------
(* Style: cfg is a record of the documented options *)
KeyW == {"if", "elif", "else", "foreach", "return", "and", "or", "not", "in"}
RECURSIVE Times(_, _)
Times(s, n) == IF n <= 0 THEN "" ELSE s \o Times(s, n - 1)
\* a value can end with it
EndsVal(t) == K(t) \in {"s", "m"} \/ (K(t) = "w" /\ X(t) \notin KeyW) \/ IsClose(t)
List(f) == f.o # "(" \/ f.call
Space(cfg, a, t) ==   \* the white space between a.p and t on the same line
  LET p == a.p
      top == Last1(a.st)
      arr(f) == f.o = "[" /\ ~f.call
  IN CASE K(t) = "n" -> ""
       [] K(t) = "c" -> " "
       [] IsOpen(p) /\ IsClose(t) -> ""
       [] IsOpen(p) -> IF arr(top) /\ cfg.space_array THEN " " ELSE ""
       [] IsClose(t) -> IF arr(top) /\ cfg.space_array THEN " " ELSE ""
       [] P(t, ",") \/ P(t, ".") \/ P(p, ".") -> ""
       [] P(t, ":") -> IF a.st # <<>> /\ top.q = 0 /\ List(top) /\ ~cfg.wide_colon THEN "" ELSE " "
       [] P(t, "(") /\ EndsVal(p) -> ""
       [] P(t, "[") /\ EndsVal(p) -> ""
       [] a.un -> ""
       [] OTHER -> " "
Outdent == {"elif", "else", "endif", "endforeach", "endfunc"}
Indent == {"if", "elif", "else", "foreach", "func"}
Broken(st) == Cardinality({i \in 1..Len(st) : st[i].br})
StyleStep(s, cfg, a, i) ==
  LET t == s[i]
      nx == IF i < Len(s) THEN s[i + 1] ELSE NONE
      start == K(a.p) = "n"
      nb == Broken(a.st)
      top == Last1(a.st)
      lvl == IF start /\ a.st = <<>> /\ K(t) = "w" /\ X(t) \in Outdent THEN a.lvl - 1 ELSE a.lvl
      want == IF ~start THEN Space(cfg, a, t)
              ELSE IF K(t) = "n" THEN "" ELSE Times(cfg.indent_by, lvl + nb - (IF IsClose(t) THEN 1 ELSE 0))
      bad(x) == [a EXCEPT !.why = IF @ = "" THEN x \o " at token " \o ToString(i) ELSE @]
      blank == start /\ K(t) = "n" /\ a.st # <<>>     \* an empty line in brackets may be indented
      \* a line break within brackets which stay on their line: as deep as it likes
      odd == start /\ K(t) # "n" /\ \E j \in 1..(Len(a.st) - (IF IsClose(t) THEN 1 ELSE 0)) : ~a.st[j].br
      a0 == IF Ws(t) # want /\ ~odd /\ ~(blank /\ Ws(t) = Times(cfg.indent_by, lvl + nb)) /\ ~(K(t) = "n" /\ Ws(t) = " " /\ a.st # <<>> /\ top.cmd) THEN bad("space <" \o Ws(t) \o "> for <" \o want \o ">") ELSE a
      closing == IF ~IsClose(t) THEN ""
                 ELSE IF IsOpen(a.lt) THEN ""
                 ELSE IF top.br /\ ~start THEN "closing bracket not on a line of its own"
                 ELSE IF ~top.br /\ P(a.lt, ",") THEN "comma at the end"
                 ELSE IF ~top.br /\ cfg.kwa /\ top.kw > 1 THEN "keyword arguments on one line"
                 ELSE IF top.br /\ List(top) /\ ~top.index
                         /\ (top.bl => ~P(a.lt, ",")) /\ P(a.lt, ",") # ~(top.o = "(" /\ cfg.no_single /\ top.n <= 1 /\ top.kw = 0)
                      THEN "comma before the closing bracket" ELSE ""
      comma == IF ~P(t, ",") \/ a.st = <<>> THEN ""
               ELSE IF top.br /\ ~top.cmd /\ K(nx) \notin {"n", "c"} THEN "two elements on a line"
               ELSE IF ~top.br /\ K(nx) \in {"n", "c"} THEN "line break after comma" ELSE ""
      \* a statement which is just a call or list, perhaps assigned, is over several lines if it is too long for one
      over == IF K(t) = "n" /\ a.st = <<>> /\ a.one /\ a.col > cfg.max /\ a.tops = 1 /\ a.flat <= 3 /\ a.fits /\ ~a.ml THEN "line too long" ELSE ""
      a1 == IF a0.why = "" /\ closing # "" THEN bad(closing) ELSE IF a0.why = "" /\ comma # "" THEN bad(comma)
            ELSE IF a0.why = "" /\ over # "" THEN bad(over) ELSE a0
      call == EndsVal(a.p)
      st1 == CASE IsOpen(t) -> Append(a.st, [o |-> X(t), call |-> call, br |-> K(nx) \in {"n", "c"}, bl |-> FALSE, n |-> 0, kw |-> 0, q |-> 0,
                                             index |-> X(t) = "[" /\ call,
                                             cmd |-> X(t) = "[" /\ P(a.p, ":") /\ a.cmdkw])
               [] IsClose(t) -> Front(a.st)
               [] a.st # <<>> /\ start /\ K(t) \in {"n", "c"} -> [a.st EXCEPT ![Len(a.st)].bl = TRUE]
               [] a.st = <<>> -> a.st
               [] P(t, ",") -> [a.st EXCEPT ![Len(a.st)].n = @ + 1]
               [] P(t, "?") -> [a.st EXCEPT ![Len(a.st)].q = @ + 1]
               [] P(t, ":") -> IF top.q > 0 THEN [a.st EXCEPT ![Len(a.st)].q = @ - 1] ELSE [a.st EXCEPT ![Len(a.st)].kw = @ + 1]
               [] OTHER -> a.st
      stmt == start /\ a.st = <<>>
      lvl1 == IF stmt THEN lvl ELSE IF K(t) = "n" /\ a.st = <<>> /\ a.opens THEN a.lvl + 1 ELSE a.lvl
      flat == a.st = <<>> /\ K(t) \notin {"n", "c"} /\ ~IsOpen(t)
  IN [a1 EXCEPT !.st = st1, !.lvl = lvl1, !.p = t,
                !.lt = IF K(t) \in {"n", "c"} THEN @ ELSE t,
                !.un = P(t, "-") /\ ~EndsVal(a.p),
                !.cmdkw = IF P(t, ":") THEN a.p = <<"w", "command", Ws(a.p)>> ELSE FALSE,
                !.col = IF K(t) = "n" THEN 0 ELSE @ + Len(Ws(t)) + Len(X(t)),
                !.ml = IF K(t) = "n" THEN FALSE ELSE @ \/ K(t) = "m" \/ K(t) = "c",
                !.opens = IF K(t) = "n" THEN @ /\ a.st # <<>> ELSE IF stmt THEN K(t) = "w" /\ X(t) \in Indent ELSE @,
                !.one = IF stmt THEN TRUE ELSE IF K(t) = "n" THEN FALSE ELSE @,
                !.flat = (IF stmt THEN 0 ELSE @) + (IF flat THEN 1 ELSE 0),
                !.tops = (IF stmt THEN 0 ELSE @) + (IF IsOpen(t) /\ a.st = <<>> THEN 1 ELSE 0),
                !.fits = IF IsClose(t) /\ Len(a.st) = 1 THEN ~IsOpen(a.lt) /\ ~top.br /\ List(top) /\ ~top.index ELSE @]
Style(cfg, s) ==
  FoldLeft(LAMBDA a, i : StyleStep(s, cfg, a, i),
           [why |-> "", st |-> <<>>, lvl |-> 0, p |-> NONE, lt |-> NONE, un |-> FALSE, cmdkw |-> FALSE, col |-> 0, ml |-> FALSE, fits |-> FALSE,
            opens |-> FALSE, one |-> FALSE, flat |-> 0, tops |-> 0],
           [i \in 1..Len(s) |-> i]).why

-----------------------------------------------------------------------------
(* Files.  Contents are numbers, 0 is no file.  F is what formatting is      *)
(* known to do: <<cfg, content>> -> content.                                 *)
VARIABLES file,    \* name -> content
          ro,      \* names which cannot be written
          F,
          run      \* what the running command has done so far
fvars == <<file, ro, F, run>>
Idle == [on |-> FALSE]
Start(mode, cfg, names) == run = Idle /\ run' = [on |-> TRUE, mode |-> mode, cfg |-> cfg, todo |-> names, res |-> <<>>, bad |-> FALSE]
                           /\ UNCHANGED <<file, ro, F>>
Cur == Head(run.todo)
\* the next file cannot be formatted: it is left alone, the others are still done
Fail(usable(_, _)) ==
  /\ run.on /\ run.todo # <<>>
  /\ \/ ~usable(run.cfg, file[Cur])
     \/ run.mode = "inplace" /\ Cur \in ro
  /\ run' = [run EXCEPT !.todo = Tail(@), !.bad = TRUE]
  /\ UNCHANGED <<file, ro, F>>
\* it becomes r
Done(usable(_, _), r) ==
  /\ run.on /\ run.todo # <<>> /\ usable(run.cfg, file[Cur])
  /\ run.mode = "inplace" => Cur \notin ro
  /\ LET k == <<run.cfg, file[Cur]>> IN
     /\ k \in DOMAIN F => F[k] = r
     /\ F' = (<<run.cfg, r>> :> r) @@ (k :> r) @@ F
     /\ <<run.cfg, r>> \in DOMAIN F => F[<<run.cfg, r>>] = r
     /\ file' = IF run.mode = "inplace" THEN [file EXCEPT ![Cur] = r] ELSE file
     /\ run' = [run EXCEPT !.todo = Tail(@), !.res = IF run.mode = "stdout" THEN Append(@, r) ELSE @,
                           !.bad = @ \/ (run.mode = "check" /\ r # file[Cur])]
  /\ UNCHANGED ro
End == run.on /\ run.todo = <<>> /\ run' = Idle /\ UNCHANGED <<file, ro, F>>
=============================================================================
