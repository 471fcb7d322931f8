---------------------------- MODULE TargetsTrace ----------------------------
(* Recorded setups and builds of the real program against Targets. *)
EXTENDS Targets, Json, IOUtils

Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES tid, l,
          own    \* object -> the <<target, source>> it is
vars == <<tvars, tid, l, own>>
T == Traces[tid]
Ev == T.events[l]
Is(e) == l <= Len(T.events) /\ Ev.ev = e
Say(x) == IF T.verbose THEN PrintT(<<"AT", l, x>>) ELSE TRUE
Over(ps) == [o \in {ps[i][1] : i \in 1..Len(ps)} |-> (CHOOSE p \in Range(ps) : p[1] = o)[2]]
Fix(st) == IF st.k = "tgt" THEN [st EXCEPT !.over = Over(st.over)] ELSE st
World(s) == [stmts |-> [i \in 1..Len(s.stmts) |-> Fix(s.stmts[i])], opts |-> Over(s.opts), copts |-> s.copts, lopts |-> s.lopts,
             dirs |-> Range(s.dirs), lang |-> s.lang]
Init == /\ tid \in 1..Len(Traces) /\ l = 1 /\ own = <<>>
        /\ S = World(T.scn) /\ pc = 0 /\ env = <<>> /\ pargs = <<>> /\ fail = FALSE /\ gdone = {} /\ cdone = {} /\ ldone = {}
Consume == /\ l' = l + 1 /\ UNCHANGED tid
           /\ IF l = Len(T.events) THEN PrintT(<<"ACCEPT", tid>>) ELSE TRUE

EvalStep == Eval /\ UNCHANGED <<tid, l, own>>
SetupEv == /\ Is("setup") /\ Evaluated
           /\ Say(<<"setup", "expected to fail", fail, "rc", Ev.rc, "at declaration", pc>>)
           /\ Ev.rc = (IF fail THEN 1 ELSE 0)
           /\ Consume /\ UNCHANGED <<tvars, own>>
GenEv == /\ Is("gen") /\ Say(<<"gen", Ev.out>>)
         /\ \E g \in GenOf(Ev.out) : Generate(g)
         /\ Consume /\ UNCHANGED own

Compiled(e, t, lang) ==
  /\ e.lang = lang
  /\ Uniq(e.defs) = Defs(t, lang)
  /\ Uniq(e.incs) = IncPath(t, lang)
  /\ [opt |-> e.opt, debug |-> e.debug, warn |-> Range(e.warn), werror |-> e.werror, std |-> e.std, ndebug |-> e.ndebug,
      pic |-> e.pic, pie |-> e.pie, vis |-> e.vis] = Flags(t, lang)
CcEv == /\ Is("cc") /\ Say(<<"cc", Ev, "owners", {<<o, Defs(env[o], S.lang[Ev.src]), IncPath(env[o], S.lang[Ev.src]), Flags(env[o], S.lang[Ev.src]), Before(o, Ev.src) \ gdone>>
                                                  : o \in {x \in Targets : Ev.src \in env[x].srcs}}>>)
        /\ \E o \in {x \in Targets : Ev.src \in env[x].srcs} :
             /\ Compiled(Ev, env[o], S.lang[Ev.src]) = TRUE
             /\ Compile(o, Ev.src)
             /\ own' = (Ev.obj :> <<o, Ev.src>>) @@ own
        /\ Ev.obj \notin DOMAIN own /\ Ev.miss = ""
        /\ Consume

Outs(ns) == {env[x].out : x \in ns}
SameObjs(e, t) == /\ \A i \in 1..Len(e.objs) : e.objs[i] \in DOMAIN own
                  /\ {own[e.objs[i]] : i \in 1..Len(e.objs)} = t.objs /\ Len(e.objs) = Cardinality(t.objs)
LinkedRight(e, t) ==
  /\ e.kind = (IF Linked(t) THEN "ld" ELSE "ar")
  /\ Linked(t) =>
     /\ e.lang = t.lang
     /\ Range(e.libs) \cup Range(e.whole) = Outs(Libs(t)) /\ Range(e.whole) = Outs(t.th)
     /\ Cardinality(Range(e.libs)) = Len(e.libs) /\ Cardinality(Range(e.whole)) = Len(e.whole)
     /\ Cardinality(Libs(t)) > 1 => e.grouped
     /\ Uniq(e.args) = LinkArgs(t)
     /\ RPaths(t) \subseteq Range(e.rpaths)
     /\ e.shared = Dyn(t.kind) /\ e.soname = t.soname /\ e.expdyn = t.expdyn
LinkEv == /\ Is("link")
          /\ Say(<<"link", Ev, "objs", [i \in 1..Len(Ev.objs) |-> IF Ev.objs[i] \in DOMAIN own THEN own[Ev.objs[i]] ELSE "?"],
                   "expected", {<<x, env[x].objs \ cdone, env[x].objs, Outs(Libs(env[x])), Outs(env[x].th), Libs(env[x]) \ ldone, x \in May,
                               IF Linked(env[x]) THEN LinkArgs(env[x]) ELSE <<>>, RPaths(env[x]), env[x].lang, env[x].soname>> : x \in {y \in Targets : env[y].out = Ev.out}}>>)
          /\ Ev.miss = ""
          /\ \E t \in {y \in Targets : env[y].out = Ev.out} :
               /\ SameObjs(Ev, env[t]) = TRUE /\ LinkedRight(Ev, env[t]) = TRUE
               /\ Link(t)
          /\ Consume /\ UNCHANGED own
EndEv == /\ Is("end")
         /\ Say(<<"end", "rc", Ev.rc, "not linked", Needed \ ldone, "not compiled", NeededObjs \ cdone, "not generated", NeededGens \ gdone,
                  "names", Ev.names, {<<env[t].out, env[t].names>> : t \in ldone}>>)
         /\ Ev.rc = 0 /\ Built
         /\ \A t \in ldone : env[t].names \subseteq Range(Ev.names[env[t].out])
         /\ cdone \subseteq UNION {env[t].objs : t \in ldone}
         /\ Consume /\ UNCHANGED <<tvars, own>>
Next == EvalStep \/ SetupEv \/ GenEv \/ CcEv \/ LinkEv \/ EndEv
Spec == Init /\ [][Next]_vars
=============================================================================
