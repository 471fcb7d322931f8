----------------------------- MODULE OptionsMC -----------------------------
(* All ways to set an option of the main project and a yielding one of a    *)
(* subproject from all sources, over a two-valued (three with a bad one)    *)
(* domain: the value is the one of the source with the highest precedence.  *)
EXTENDS Options

D(n, y) == [name |-> n, type |-> "combo", ch |-> <<"a", "b", "c">>, min |-> <<>>, max |-> <<>>, def |-> [t |-> "s", v |-> "a"],
            yield |-> y, dep |-> "none", dm |-> <<>>, dto |-> ""]
Af == [D("auto_features", FALSE) EXCEPT !.type = "feature", !.def = [t |-> "f", v |-> "auto"], !.ch = <<>>]
Pre == [D("prefix", FALSE) EXCEPT !.type = "string", !.ch = <<>>, !.def = [t |-> "s", v |-> "/usr"]]
V == {"", "b", "c", "bad"}   \* "": not set there
S(p, n, v) == IF v = "" THEN <<>> ELSE <<[proj |-> p, name |-> n, raw |-> [f |-> "txt", s |-> v]]>>
VARIABLE how
Init ==
  \E mc \in V, md \in V, sc \in V, sd \in V, sp \in V, call \in V, yld \in BOOLEAN, req \in BOOLEAN :
    /\ sp = "" \/ call = ""
    /\ how = [mc |-> mc, md |-> md, sc |-> sc, sd |-> sd, sp |-> sp, call |-> call, yld |-> yld]
    /\ W = [glob |-> <<Af, Pre>>, per |-> <<>>, env |-> <<>>, cmd |-> S("", "x", mc) \o S("s", "x", sc),
            projects |-> << [name |-> "main", opts |-> <<D("x", FALSE)>>, dopts |-> S("", "x", md) \o S("s", "x", sp),
                             body |-> <<[k |-> "sub", p |-> "s", dopts |-> S("", "x", call), req |-> req]>>],
                            [name |-> "s", opts |-> <<D("x", yld)>>, dopts |-> S("", "x", sd), body |-> <<>>] >>]
    /\ val = <<>> /\ pend = <<>> /\ stack = <<>> /\ subs = <<>> /\ reads = {} /\ out = <<>> /\ mode = "idle"
Next == UNCHANGED <<W, how>> /\ ((mode = "idle" /\ Begin) \/ Eval)
Spec == Init /\ [][Next]_<<W, cvars, how>> /\ WF_<<W, cvars, how>>(Next)

First(q) == LET I == {i \in DOMAIN q : q[i] # ""} IN IF I = {} THEN "" ELSE q[CHOOSE i \in I : \A j \in I : i <= j]
MainX == First(<<how.mc, how.md, "a">>)
Parent == IF how.sp # "" THEN how.sp ELSE how.call
Precedence ==
  mode = "ok" =>
    /\ val[<<1, "x">>].v.v = MainX
    /\ ("s" \in DOMAIN subs /\ subs["s"]) =>
         val[<<2, "x">>].v.v = First(<<how.sc, Parent, how.sd, IF how.yld THEN MainX ELSE "a">>)
Terminates == <>(mode \in {"ok", "err"})
=============================================================================
