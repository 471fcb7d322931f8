----------------------------- MODULE InstallMC -----------------------------
(* All histories of installing, dry runs, removals, obstacles and edits over *)
(* a small set of declarations.                                              *)
EXTENDS Install

CONSTANTS MaxSteps
VARIABLES n, pre, last   \* steps; the file system before the last one; what it was
F(c, m) == [t |-> "f", c |-> c, m |-> m]
Dn == [t |-> "d", c |-> "", m |-> DirMode]
Data(ss, dir, m) == [k |-> "data", proj |-> "p", cwd |-> "/s", srcs |-> [i \in DOMAIN ss |-> [p |-> ss[i], how |-> "str"]],
                     dir |-> dir, rename |-> <<>>, preserve |-> FALSE, mode |-> m]
Decls == { Data(<<"a", "d/b">>, "x", ""), [Data(<<"d/b">>, "x", "") EXCEPT !.preserve = TRUE], Data(<<"a">>, "/abs", "rwxr-x---"),
           [k |-> "link", to |-> "/victim", dir |-> "x", name |-> "a"],
           [k |-> "empty", dirs |-> <<"x/a">>, mode |-> "rwx------"],
           [k |-> "subdir", cwd |-> "/s", name |-> "d", dir |-> "x", strip |-> FALSE, mode |-> "", xd |-> <<"e">>, xf |-> <<>>],
           [k |-> "subdir", cwd |-> "/s", name |-> "d", dir |-> "x", strip |-> TRUE, mode |-> "", xd |-> <<>>, xf |-> <<"b">>],
           [k |-> "target", install |-> TRUE, bcwd |-> "/b", outs |-> <<"o">>, dirs |-> <<"x">>, mode |-> "", byd |-> TRUE],
           Data(<<"a">>, "x", "rwxrwxrw") }
Src0 == ("/s" :> Dn) @@ ("/s/a" :> F("1", <<0, 6, 6, 4>>)) @@ ("/s/d" :> Dn) @@ ("/s/d/b" :> F("2", <<0, 4, 4, 4>>))
        @@ ("/s/d/e" :> Dn) @@ ("/s/d/e/f" :> F("3", <<0, 6, 4, 4>>)) @@ ("/b" :> Dn)
Fs0 == "/victim" :> F("v", <<0, 6, 4, 4>>)
Sc == { [args |-> "A", fails |-> FALSE, skip |-> FALSE, dry |-> TRUE], [args |-> "B", fails |-> TRUE, skip |-> TRUE, dry |-> FALSE] }
Dds == {"", "/dd"}
Init == \E ds \in {<<a>> : a \in Decls} \cup {<<a, b>> : a \in Decls, b \in Decls}, sc \in {<<>>} \cup {<<a, b>> : a \in Sc, b \in Sc} :
  /\ W = [prefix |-> "/p", datadir |-> "share", includedir |-> "include", mandir |-> "man", bindir |-> "bin", libdir |-> "lib",
          bdir |-> "/b", src |-> "/s", decls |-> ds, scripts |-> sc]
  /\ src = Src0 /\ fs = Fs0 /\ ran = <<>> /\ mode = "new" /\ n = 0 /\ pre = <<>> /\ last = <<>>
Without(f, ps) == [x \in DOMAIN f \ ps |-> f[x]]
Step(what) == n < MaxSteps /\ n' = n + 1 /\ pre' = fs /\ last' = what
Next ==
  \/ mode = "new" /\ Setup /\ UNCHANGED <<n, pre, last>>
  \/ mode = "ok" /\ \E d \in Dds, dry \in BOOLEAN : Install(d, dry) /\ Step(<<d, dry>>)
  \/ mode = "ok" /\ "/b/o" \notin DOMAIN src /\ src' = src @@ ("/b/o" :> F("o", <<0, 6, 4, 4>>)) /\ Step(<<>>) /\ UNCHANGED <<W, fs, ran, mode>>
  \/ mode = "ok" /\ \E p \in DOMAIN fs \ {"/victim"} : fs' = Without(fs, {p} \cup {q \in DOMAIN fs : IsUnder(p, q)})
                    /\ Step(<<>>) /\ UNCHANGED <<W, src, ran, mode>>
  \/ mode = "ok" /\ \E p \in {"/p/x/a", "/dd/p/x", "/p/x/d"}, nd \in {Dn, F("z", <<0, 4, 4, 4>>)} :
                    p \notin DOMAIN fs /\ fs' = MkDirP(S0(fs), Dir(p)).fs @@ (p :> nd) /\ Step(<<>>) /\ UNCHANGED <<W, src, ran, mode>>
Spec == Init /\ [][Next]_<<ivars, n, pre, last>>

Changed == {p \in DOMAIN pre \cup DOMAIN fs : (p \in DOMAIN pre) # (p \in DOMAIN fs) \/ (p \in DOMAIN pre /\ pre[p] # fs[p])}
(* a destination directory confines an installation; a dry run changes nothing *)
Confined == last # <<>> =>
  /\ last[2] => Changed = {}
  /\ last[1] # "" => \A p \in Changed : p = last[1] \/ IsUnder(last[1], p)
  /\ Changed # {} => LET ds == {Dest(Plan[i], last[1]) : i \in DOMAIN Plan}
                    IN \A p \in Changed : \E d \in ds : p = d \/ IsUnder(p, d) \/ IsUnder(d, p)
Victim == fs["/victim"] = Fs0["/victim"]
(* installing again changes nothing, and what was removed comes back *)
Repeatable == mode = "ok" => \A d \in Dds :
  LET pl == Plan a == DoAll(S0(fs), pl, d) again == DoAll(S0(a.fs), pl, d) IN a.ok =>
    /\ again.ok /\ again.fs = a.fs
    /\ DoAll(S0(Fs0), pl, d).ok => \A p \in DOMAIN DoAll(S0(Fs0), pl, d).fs : p \in DOMAIN a.fs
(* a successful installation has everything which no other declaration replaced *)
Present == mode = "ok" => \A d \in Dds : LET pl == Plan a == DoAll(S0(fs), pl, d) to == [i \in DOMAIN pl |-> Dest(pl[i], d)] IN a.ok => \A i \in DOMAIN pl :
  /\ to[i] \in DOMAIN a.fs
  /\ pl[i].t = "file" /\ (\A j \in DOMAIN pl : j # i => to[j] # to[i] /\ (pl[j].t = "subdir" => ~IsUnder(to[j], to[i])))
       => a.fs[to[i]].c = src[pl[i].src].c
(* no script runs after a failure, and none which is skipped *)
Scripts == mode = "ok" => \A d \in Dds, dry \in BOOLEAN : LET a == Result(d, dry) IN
  /\ a.ok => Len(a.ran) = Len(Selected(d, dry))
  /\ ~a.ok /\ (\A i \in DOMAIN W.scripts : ~W.scripts[i].fails) => a.ran = <<>>
  /\ \A i \in DOMAIN a.ran : a.ran[i].args = "B" => d = "" /\ ~dry /\ i = Len(a.ran)
=============================================================================
