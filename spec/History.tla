------------------------------- MODULE History ------------------------------
(***************************************************************************)
(* The life of converters: they are created, their settings are changed,   *)
(* and they convert texts, in any order.  All a conversion may depend on   *)
(* is the text and the settings in force: `Parse` describes its result as  *)
(* a function of these two, whatever has happened before.                  *)
(***************************************************************************)
EXTENDS Lib
CONSTANTS Model, Depth

VARIABLES conv,  \* converter -> its settings
          ops,   \* what has been done so far
          want    \* what the conversions among it must have returned
hvars == <<conv, ops, want, cfg, doc, st, out>>

W1 == <<W("word")>>
\* Texts which leave traces in a converter, if anything does
Texts == <<
  <<P(<<J(<<W("a"), Fr("1")>>), J(<<W("b"), Fr("2")>>), J(<<W("c"), Fr("1")>>)>>), Fn("1", << >>, TRUE, W1), Fn("2", <<cls>>, FALSE, W1)>>,
  <<P(<<J(<<W("a"), Nr("a1")>>), J(<<W("b"), Nr("b2")>>), J(<<W("c"), Nr("a1")>>)>>), Nd("a1", "", << >>, W1), Nd("c3", "", << >>, W1), Nlist(<< >>, "", "", TRUE)>>,
  <<Lst(<<Li("#", "", << >>, <<W("one")>>), Li("##", "", << >>, <<W("two")>>), Li("#", "", << >>, <<W("three")>>)>>)>>,
  <<Lst(<<Li("#", "_", << >>, <<W("one")>>), Li("##", "_", << >>, <<W("two")>>)>>)>>,
  <<Al("here", ex, "example.com"), P(<<W("see"), Ln(<< >>, W1, "", Alias("here")), W("now")>>)>>,
  <<P(<<W("see"), Ln(<< >>, W1, "title", Alias("here")), NL, Ln(<<cls>>, W1, "", exs), W("end")>>)>>,
  <<P(<<W("a"), Sp("*", <<cls>>, <<Sp("_", << >>, W1), W("x")>>), NL, Ac("ABC", "title"), Cp("NASA")>>)>>,
  <<P(<<W("a"), Im(">", <<cls>>, pic, "title", ex), W("b"), Im("", << >>, pic, "", NoUrl), W("c")>>), Bq(FALSE, <<ci, sty>>, ex, W1)>>,
  <<P(<<W("a"), Code("x < y"), W("b"), Nt("==", "*x*", T("*x*")), W("c")>>), Bc(FALSE, <<lang>>, "code"), PX(TRUE, <<cls>>, W1)>>,
  <<P(<<Sp("*", << >>, W1), W("end")>>), Lst(<<Li("*", "", << >>, <<Sp("_", << >>, W1)>>), Li("*", "", << >>, <<W("a"), NL, W("b")>>)>>)>>,
  <<P(<<W("a"), Raw("<b class=\"c\">x</b>", El("b", A("class", "c"), T("x"))), W("b")>>),
    Tb(FALSE, << >>, "", NoCap, << >>, <<Row("", << >>, << >>, <<Cell(TRUE, <<cls>>, <<W("c1")>>), Cell(FALSE, << >>, <<W("x"), Sp("-", << >>, W1), W("y")>>)>>)>>)>> >>
Source(i) == DocSrc(Texts[i])

RECURSIVE RDoc(_, _, _, _, _)
RDoc(c, s, bs, i, o) ==
  IF i > Len(bs) THEN Result(c, s, o)
  ELSE LET r == RBlock(c, s, bs[i]) IN RDoc(c, r.st, bs, i + 1, o \o r.o)
Converted(c, i) == RDoc(c, St0, Texts[i], 1, << >>)

Fresh == [Cfg0 EXCEPT !.uid = "*"]  \* a new converter chooses its identifiers itself
\* the settings there are
Sets == {<<k, v>> : k \in {"restricted", "lite", "images", "block_tags", "sanitize", "raw_blocks"}, v \in BOOLEAN}
   \cup {<<"adjust", v>> : v \in {"rel", "generic", "deny"}}
   \cup {<<"html", v>> : v \in {"html5", "xhtml"}} \cup {<<"rel", v>> : v \in {"", "nofollow", "me $1"}}
   \cup {<<"align_class", v>> : v \in {"on", "off"}} \cup {<<"uid", v>> : v \in {"u1", "u2", "$1(x", "é.*"}}
Convs == CASE Model \in {"one", "uids"} -> {1} [] OTHER -> {1, 2, 3}

\* the last of set_sanitize and adjust_sanitizer is in force
Without(c, k) == [x \in DOMAIN c \ {k} |-> c[x]]
Adopted(c, s) ==
  CASE s[1] = "sanitize" -> ("sanitize" :> s[2]) @@ Without(c, "adjust")
    [] s[1] = "adjust" -> ("adjust" :> s[2]) @@ ("sanitize" :> TRUE) @@ c
    [] OTHER -> (s[1] :> s[2]) @@ c
Set(i, s) ==
  /\ conv' = [conv EXCEPT ![i] = Adopted(@, s)]
  /\ ops' = ops \o <<<<"use", i>>, <<"set", s[1], IF s[1] = "align_class" THEN s[2] = "on" ELSE s[2]>>>>
  /\ UNCHANGED want
New(i) ==
  /\ conv' = [conv EXCEPT ![i] = Fresh]
  /\ ops' = ops \o <<<<"use", i>>, <<"new">>>>
  /\ UNCHANGED want
Parse(i, t) ==
  /\ ops' = ops \o <<<<"use", i>>, <<"parse", Source(t)>>>>
  /\ want' = Append(want, [c |-> conv[i], t |-> t, e |-> Converted(conv[i], t)])
  /\ UNCHANGED conv

Idle == UNCHANGED <<cfg, doc, st, out>>
HEmit == PrintT("@@" \o ToJson([ops |-> ops, want |-> want]))
HInit == DocInit({Cfg0}) /\ conv = [i \in Convs |-> Fresh] /\ ops = << >> /\ want = << >>
HDepth == Len(ops) \div 2
\* every history of Depth operations which ends with a conversion
HNext ==
  /\ IF HDepth = Depth THEN HEmit ELSE TRUE
  /\ HDepth < Depth /\ Idle
  /\ \E i \in Convs :
       \/ HDepth < Depth - 1 /\ \E s \in Sets : Set(i, s)
       \/ HDepth < Depth - 1 /\ New(i)
       \/ \E t \in 1..Len(Texts) : Parse(i, t)
\* random histories
HNextR ==
  \/ HDepth >= Depth /\ HEmit /\ FALSE
  \/ /\ HDepth < Depth /\ Idle
     /\ \E i \in {RE(IF HDepth >= 0 THEN Convs ELSE {})}, k \in {RE(IF HDepth >= 0 THEN 1..10 ELSE {})} :
          IF k = 1 THEN New(i)
          ELSE IF k <= 5 THEN \E s \in {RE(IF HDepth >= 0 THEN Sets ELSE {})} : Set(i, s)
          ELSE \E t \in {RE(IF HDepth >= 0 THEN 1..Len(Texts) ELSE {})} : Parse(i, t)

\* The specification itself: the result of a conversion is a function of the
\* text and the settings, and a conversion changes no settings.
InvFunction == \A a, b \in 1..Len(want) : (want[a].t = want[b].t /\ want[a].c = want[b].c) => want[a].e = want[b].e
=============================================================================
