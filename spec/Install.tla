------------------------------ MODULE Install ------------------------------
(* Install: what the install declarations of a configuration mean, and what *)
(* `muon install` does to the file system and which scripts it runs.        *)
(*                                                                          *)
(* W: [prefix, datadir, includedir, mandir, bindir, libdir, bdir, src,      *)
(*     decls |-> << declaration >>, scripts |-> << script >>]               *)
(* declaration: [k, proj, cwd, ...] by kind, see Items                      *)
(* node: [t |-> "f" | "l" | "d", c |-> content or target, m |-> mode]       *)
(* mode: << special, user, group, other >>, or <<>>: not specified          *)
EXTENDS Paths, FiniteSets, TLC

VARIABLES
  W,      \* the declarations
  src,    \* the source and build trees: path -> node
  fs,     \* everything else: path -> node
  ran,    \* scripts run by the last install
  mode    \* "new", "ok", "bad" (setup failed)
ivars == <<W, src, fs, ran, mode>>

Range(s) == {s[i] : i \in DOMAIN s}

(* -------------------------------------------------------------- modes *)
NoW(d) == IF (d \div 2) % 2 = 1 THEN d - 2 ELSE d
Umasked(m) == <<m[1], m[2], NoW(m[3]), NoW(m[4])>>
DirMode == <<0, 7, 5, 5>>
Bit(c, set, n) == IF c \in set THEN n ELSE 0
Triple(s, i, sp) == Bit(Chr(s, i), {"r"}, 4) + Bit(Chr(s, i + 1), {"w"}, 2) + Bit(Chr(s, i + 2), {"x", sp}, 1)
Rwx(s) == << Bit(Chr(s, 3), {"s", "S"}, 4) + Bit(Chr(s, 6), {"s", "S"}, 2) + Bit(Chr(s, 9), {"t", "T"}, 1),
             Triple(s, 1, "s"), Triple(s, 4, "s"), Triple(s, 7, "t") >>
RwxOk(s) ==
  /\ Len(s) = 9
  /\ \A i \in {1, 4, 7} : Chr(s, i) \in {"r", "-"}
  /\ \A i \in {2, 5, 8} : Chr(s, i) \in {"w", "-"}
  /\ \A i \in {3, 6} : Chr(s, i) \in {"x", "-", "s", "S"}
  /\ Chr(s, 9) \in {"x", "-", "t", "T"}

(* ------------------------------------------------- meaning of declarations *)
(* item: [t, src, dest, mode |-> rwx string or "", xd, xf, opt |-> may be missing] *)
Item(t, s, d, m) == [t |-> t, src |-> s, dest |-> Join(W.prefix, d), mode |-> m, xd |-> {}, xf |-> {}, opt |-> FALSE]
Opt(d, items) == [i \in DOMAIN items |-> [items[i] EXCEPT !.opt = ~d.byd]]
SrcOf(d, s) == Join(d.cwd, s.p)
Tail3(d, s) == IF d.preserve THEN s.p ELSE Base(s.p)
ManNum(b) == Chr(b, Len(b))
ManOk(b) == Len(b) >= 3 /\ ManNum(b) \in DigitSet /\ Chr(b, Len(b) - 1) = "."
(* name.locale.1 is installed as name.1 *)
ManName(b, loc) == LET e == "." \o loc \o "." \o ManNum(b)
                   IN IF loc # "" /\ EndsWith(b, e) /\ Len(b) > Len(e) THEN SubSeq(b, 1, Len(b) - Len(e)) \o "." \o ManNum(b) ELSE b
DirOf(d, def) == IF d.dir = "" THEN def ELSE d.dir
LibNames(d) ==  \* << real name, << link, target >> ... >>
  LET plain == "lib" \o d.name \o ".so"
      so == IF d.sover # "" THEN d.sover ELSE IF d.ver # "" THEN SplitOn(d.ver, ".")[1] ELSE ""
      soname == IF so = "" THEN plain ELSE plain \o "." \o so
      real == IF d.ver = "" THEN soname ELSE plain \o "." \o d.ver
  IN [real |-> real, links |-> (IF soname # real THEN <<soname>> ELSE <<>>) \o (IF plain # soname THEN <<plain>> ELSE <<>>)]
Items(d) ==
  CASE d.k = "data" ->
         LET dir == DirOf(d, Join(W.datadir, d.proj)) IN
         [i \in DOMAIN d.srcs |-> Item("file", SrcOf(d, d.srcs[i]),
            Join(dir, IF d.rename # <<>> THEN d.rename[i] ELSE Tail3(d, d.srcs[i])), d.mode)]
    [] d.k = "headers" ->
         LET dir == IF d.sub # "" THEN Join(W.includedir, d.sub) ELSE DirOf(d, W.includedir) IN
         [i \in DOMAIN d.srcs |-> Item("file", SrcOf(d, d.srcs[i]), Join(dir, Tail3(d, d.srcs[i])), d.mode)]
    [] d.k = "man" ->
         [i \in DOMAIN d.srcs |->
            LET b == Base(d.srcs[i].p)
                dir == DirOf(d, Join(IF d.locale = "" THEN W.mandir ELSE Join(W.mandir, d.locale), "man" \o ManNum(b)))
            IN Item("file", SrcOf(d, d.srcs[i]), Join(dir, IF d.dir = "" THEN ManName(b, d.locale) ELSE b), d.mode)]
    [] d.k = "link" -> << Item("link", d.to, Join(d.dir, d.name), "") >>
    [] d.k = "empty" -> [i \in DOMAIN d.dirs |-> Item("empty", "", d.dirs[i], d.mode)]
    [] d.k = "subdir" ->
         << [Item("subdir", Join(d.cwd, d.name), IF d.strip THEN d.dir ELSE Join(d.dir, Base(d.name)), d.mode)
             EXCEPT !.xd = Range(d.xd), !.xf = Range(d.xf)] >>
    [] d.k = "conf" -> IF d.install THEN << Item("file", Join(d.bcwd, d.out), Join(d.dir, d.out), d.mode) >> ELSE <<>>
    [] d.k = "target" ->
         IF ~d.install THEN <<>>
         ELSE LET at(i) == IF Len(d.dirs) = 1 THEN d.dirs[1] ELSE d.dirs[i]
                  all == [i \in DOMAIN d.outs |->
                            IF at(i) = "" THEN [t |-> "none"] ELSE Item("file", Join(d.bcwd, d.outs[i]), Join(at(i), d.outs[i]), d.mode)]
              IN Opt(d, SelectSeq(all, LAMBDA x : x.t # "none"))
    [] d.k = "exe" -> IF d.install THEN << Item("file", Join(d.bcwd, d.name), Join(DirOf(d, W.bindir), d.name), d.mode) >> ELSE <<>>
    [] d.k = "slib" -> LET n == "lib" \o d.name \o ".a" IN
                       IF d.install THEN << Item("file", Join(d.bcwd, n), Join(DirOf(d, W.libdir), n), d.mode) >> ELSE <<>>
    [] d.k = "lib" ->
         LET n == LibNames(d) dir == DirOf(d, W.libdir) IN
         IF ~d.install THEN <<>>
         ELSE << Item("file", Join(d.bcwd, n.real), Join(dir, n.real), d.mode) >>
              \o [i \in DOMAIN n.links |-> Item("link", IF i = 1 THEN n.real ELSE n.links[i - 1], Join(dir, n.links[i]), "")]
RECURSIVE Flat(_)
Flat(s) == IF s = <<>> THEN <<>> ELSE Head(s) \o Flat(Tail(s))
Plan == Flat([i \in DOMAIN W.decls |-> Items(W.decls[i])])

(* declarations which are errors *)
BadDecl(d) ==
  \/ d.k = "target" /\ d.install /\ Len(d.dirs) # 1 /\ Len(d.dirs) # Len(d.outs)
  \/ d.k \in {"data", "headers", "man", "empty", "subdir", "conf", "target", "exe", "lib", "slib"} /\ d.mode # "" /\ ~RwxOk(d.mode)
     /\ Items(d) # <<>>
  \/ d.k = "data" /\ d.rename # <<>> /\ (Len(d.rename) # Len(d.srcs) \/ d.preserve)
  \/ d.k \in {"data", "headers"} /\ d.preserve /\ \E i \in DOMAIN d.srcs : d.srcs[i].how = "file"
  \/ d.k = "headers" /\ d.sub # "" /\ d.dir # ""
  \/ d.k = "man" /\ \E i \in DOMAIN d.srcs : ~ManOk(Base(d.srcs[i].p))
SetupOk == \A i \in DOMAIN W.decls : ~BadDecl(W.decls[i])

(* ------------------------------------------------------------ file system *)
(* operations on [ok, fs, sure]; sure: nothing is left open about fs *)
S0(f) == [ok |-> TRUE, fs |-> f, sure |-> TRUE]
Has(f, p) == p \in DOMAIN f
IsDir(f, p) == p = "/" \/ (Has(f, p) /\ f[p].t = "d")
Set(f, p, n) == (p :> n) @@ f
Fail(s) == [s EXCEPT !.ok = FALSE]
NewDir == [t |-> "d", c |-> "", m |-> DirMode]
MkDir(s, p) == IF ~s.ok \/ IsDir(s.fs, p) THEN s
               ELSE IF Has(s.fs, p) THEN Fail(s) ELSE [s EXCEPT !.fs = Set(s.fs, p, NewDir)]
RECURSIVE MkDirs(_, _)
MkDirs(s, ps) == IF ps = <<>> THEN s ELSE MkDirs(MkDir(s, Head(ps)), Tail(ps))
MkDirP(s, p) == MkDirs(s, Tail(Ancestors(p)) \o <<p>>)
(* a file or link replaces what is there, unless that is a directory *)
Put(s, p, n) == IF ~s.ok THEN s ELSE IF IsDir(s.fs, p) THEN Fail(s) ELSE [s EXCEPT !.fs = Set(s.fs, p, n)]
FileNode(n, m) == IF n.t = "l" THEN n ELSE [n EXCEPT !.m = IF m = "" THEN Umasked(n.m) ELSE Rwx(m)]
Copied(item) == {p \in DOMAIN src :
                  /\ StartsWith(p, item.src \o "/")   \* both without redundant elements
                  /\ LET r == From(p, Len(item.src) + 2)
                     IN /\ \A x \in item.xd : ~StartsWith(r, x \o "/")
                        /\ r \notin (IF src[p].t = "d" THEN item.xd ELSE item.xf)}
(* the contents of a directory: all or, if that fails, some of it *)
PutTree(s, item, dest) ==
  LET ps == Copied(item)
      to(p) == dest \o From(p, Len(item.src) + 1)
      of(x) == item.src \o From(x, Len(dest) + 1)
      bad == \/ \E p \in ps : IF src[p].t = "d" THEN Has(s.fs, to(p)) /\ ~IsDir(s.fs, to(p)) ELSE IsDir(s.fs, to(p))
      new == [x \in {to(p) : p \in ps} |->
                LET p == of(x)
                IN IF src[p].t # "d" THEN FileNode(src[p], item.mode)
                   ELSE IF item.mode # "" THEN [NewDir EXCEPT !.m = <<>>]
                   ELSE IF Has(s.fs, x) THEN s.fs[x] ELSE NewDir]
      f1 == new @@ s.fs
  IN IF ~s.ok THEN s
     ELSE IF bad THEN [s EXCEPT !.ok = FALSE, !.sure = FALSE]
     ELSE [s EXCEPT !.fs = IF item.mode # "" THEN [f1 EXCEPT ![dest].m = <<>>] ELSE f1]
Dest(item, destdir) == IF destdir = "" THEN item.dest ELSE Below(destdir, item.dest)
DoItem(s, item, destdir) ==
  LET d == Dest(item, destdir) IN
  CASE ~s.ok -> s
    [] item.t = "file" /\ item.opt /\ ~Has(src, item.src) -> s
    [] item.t = "file" -> IF Has(src, item.src) THEN Put(MkDirP(s, Dir(d)), d, FileNode(src[item.src], item.mode))
                          ELSE Fail(MkDirP(s, Dir(d)))
    [] item.t = "link" -> Put(MkDirP(s, Dir(d)), d, [t |-> "l", c |-> item.src, m |-> <<>>])
    [] item.t = "empty" -> LET r == MkDirP(s, d)
                           IN IF r.ok /\ item.mode # "" THEN [r EXCEPT !.fs[d].m = Rwx(item.mode)] ELSE r
    [] item.t = "subdir" -> PutTree(MkDirP(s, d), item, d)
RECURSIVE DoAll(_, _, _)
DoAll(s, items, destdir) == IF items = <<>> THEN s ELSE DoAll(DoItem(s, Head(items), destdir), Tail(items), destdir)

(* ---------------------------------------------------------------- scripts *)
(* script: [args, fails, skip, dry]; run: [args, destdir, prefix, dprefix, dry, *)
(* sroot, broot]                                                              *)
Run(sc, destdir, dry) ==
  [args |-> sc.args, destdir |-> destdir, prefix |-> W.prefix,
   dprefix |-> IF destdir = "" THEN W.prefix ELSE Below(destdir, W.prefix), dry |-> IF dry THEN "1" ELSE "",
   sroot |-> W.src, broot |-> W.bdir]
Selected(destdir, dry) == SelectSeq(W.scripts, LAMBDA sc : ~(sc.skip /\ destdir # "") /\ (dry => sc.dry))
FirstFail(s) == LET F == {i \in DOMAIN s : s[i].fails} IN IF F = {} THEN 0 ELSE CHOOSE i \in F : \A j \in F : i <= j

(* the result of an installation: [ok, fs, sure, ran] *)
Result(destdir, dry) ==
  LET r == IF dry THEN S0(fs) ELSE DoAll(S0(fs), Plan, destdir)
      sel == Selected(destdir, dry)
      ff == FirstFail(sel)
      done == IF ~r.ok THEN <<>> ELSE IF ff = 0 THEN sel ELSE SubSeq(sel, 1, ff)
  IN [ok |-> r.ok /\ ff = 0, fs |-> r.fs, sure |-> r.sure, ran |-> [i \in DOMAIN done |-> Run(done[i], destdir, dry)]]

Setup == mode' = (IF SetupOk THEN "ok" ELSE "bad") /\ UNCHANGED <<W, src, fs, ran>>
Install(destdir, dry) ==
  /\ mode = "ok"
  /\ LET r == Result(destdir, dry) IN fs' = r.fs /\ ran' = r.ran
  /\ UNCHANGED <<W, src, mode>>
=============================================================================
