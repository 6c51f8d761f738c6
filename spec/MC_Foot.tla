------------------------------- MODULE MC_Foot ------------------------------
(* Footnotes: references and their texts *)
EXTENDS Lib
CONSTANTS Model, Depth
Ref(n) == J(<<W("ref"), Fr(n)>>)
RefX(n) == J(<<W("ref"), FrX(n)>>)
Def(n) == Fn(n, << >>, FALSE, <<W("text" \o n)>>)
DefB(n) == Fn(n, << >>, TRUE, <<W("back" \o n)>>)
SeqBlocks == {P(<<Ref("1")>>), P(<<Ref("2"), Ref("1")>>), P(<<RefX("1")>>), P(<<Ref("1"), RefX("1"), Ref("1")>>), Def("1"), Def("2"), DefB("1"), DefB("2"),
        Host("li", <<Ref("2")>>), H(FALSE, "1", << >>, <<Ref("2")>>)}
Seq3 == {P(<<Ref("1")>>), P(<<Ref("2")>>), P(<<Ref("3")>>), Def("1"), DefB("2"), Def("3")}
\* a footnote must be referred to before its text (otherwise they aren't related): see FnOk
DefNums(d) == [i \in {j \in 1..Len(d) : d[j].k = "fn"} |-> d[i].n]
RECURSIVE RefsIn(_), RefsAll(_)
RefsAll(b) == UNION {RefsIn(b[i]) : i \in 1..Len(b)}
RefsIn(n) == CASE n.k = "fr" -> {n.n} [] n.k \in {"sp", "ln", "j"} -> RefsAll(n.b) [] OTHER -> {}
BlockRefs(b) == CASE b.k \in {"p", "px", "h", "bq", "fn"} -> RefsAll(b.b)
                  [] b.k = "ls" -> UNION {RefsAll(b.i[i].b) : i \in 1..Len(b.i)}
                  [] b.k = "tb" -> UNION {UNION {RefsAll(b.r[i].c[j].b) : j \in 1..Len(b.r[i].c)} : i \in 1..Len(b.r)}
                  [] b.k = "dl" -> UNION {RefsAll(b.i[i].t) \cup RefsAll(b.i[i].d) : i \in 1..Len(b.i)}
                  [] OTHER -> {}
FnOk(d, b) == /\ b.k = "fn" => \A i \in 1..Len(d) : ~(d[i].k = "fn" /\ d[i].n = b.n)
              /\ \A i \in 1..Len(d) : d[i].k = "fn" => (d[i].n \notin BlockRefs(b) \/ \E j \in 1..(i - 1) : d[i].n \in BlockRefs(d[j]))
              /\ b.k = "fn" => b.n \notin BlockRefs(b) \/ \E j \in 1..Len(d) : b.n \in BlockRefs(d[j])

\* where a reference may stand, and what a footnote may say
Refs == {Fr("1"), FrX("1"), Fr("12"), Fr("007")}
Places == UNION {{<<J(<<W("word"), r>>)>>, <<W("a"), J(<<W("word"), r>>), W("b")>>, <<W("a"), J(<<W("word"), r, W(".")>>)>>, <<J(<<W("word"), r, W(",")>>), W("b")>>,
                  <<Sp("*", << >>, <<W("x"), J(<<W("word"), r>>), W("y")>>)>>, <<Sp("_", <<cls>>, <<J(<<W("word"), r>>), W("y")>>)>>,
                  <<Ln(<< >>, <<W("l")>>, "", ex), J(<<W("word"), r>>)>>, <<W("a"), NL, J(<<W("word"), r>>)>>,
                  <<J(<<W("w"), r>>), J(<<W("v"), r>>)>>, <<J(<<W("größe"), r>>)>>, <<J(<<W("end."), r>>)>>, <<J(<<W("v"), r>>), Sp("_", <<cls>>, <<W("z")>>)>>} : r \in Refs}
Texts == {<<W("plain")>>, <<W("a"), Sp("*", << >>, <<W("b")>>)>>, <<Ln(<< >>, <<W("l")>>, "", ex)>>, <<Code("c *d*")>>, <<W("one"), NL, W("two")>>,
          <<Im("", << >>, pic, "", NoUrl)>>, <<Cp("HTML"), Gl("--", "—"), W("x")>>, <<J(<<W("see"), Fr("2")>>)>>}
Defs == {Fn(n, a, bk, t) : n \in {"1", "12"}, a \in {<< >>, <<cls>>, <<idp>>, <<ci>>, <<sty, lang>>}, bk \in BOOLEAN, t \in Texts}
\* what a reference may be attached to, and what may follow it
Stems == {Sp("*", << >>, <<W("b")>>), Sp("_", <<cls>>, <<W("b"), W("c")>>), Sp("??", << >>, <<W("b")>>), Code("x"), Code("a *b*"), Ac("ABC", "title"), Cp("HTML"), Paren(W("a")), Gl("\"q\"", "“q”"), Gl("'q'", "‘q’"), Gl("so...", "so…"),
          Gl("(c)", "©"), W("x?"), W("x:"), W("x;"), W("x%"), W("—"), W("слово"), W("日本"), W("42"), Gl("it's", "it’s"), J(<<W("w"), Fr("8")>>), J(<<W("w"), FrX("8"), Fr("7")>>)}
Tails2 == {<< >>, <<W(",")>>, <<W(".")>>, <<W("?")>>, <<W(")")>>, <<W(":")>>, <<W("-x")>>, <<Gl("...", "…")>>, <<W("x")>>}
Nums == {Fr("1"), Fr("10"), Fr("100"), Fr("123"), FrX("99"), FrX("1000"), Fr("0")}
Places2 == {<<W("a"), J(<<x, r>> \o t), W("b")>> : x \in Stems, r \in {Fr("1"), FrX("10")}, t \in Tails2}
     \cup {<<J(<<W("a"), r>> \o t), J(<<W("b"), r2>>)>> : r \in Nums, r2 \in Nums, t \in Tails2 \cup {<<Fr("5")>>, <<FrX("55")>>}}
     \cup {<<Sp(m, << >>, <<J(<<W("b"), r>>)>>)>> : m \in {"*", "_", "-", "??", "%"}, r \in Nums}
Places3 == {<<J(<<Gl("\"", "“"), W("b"), r, Gl("\"", "”")>> \o t), W("c")>> : r \in Nums, t \in {<< >>, <<W(".")>>, <<W(",")>>}}
     \cup {<<J(<<Gl("'", "‘"), W("b"), r, Gl("'", "’")>> \o t), W("c")>> : r \in Nums, t \in {<< >>, <<W(".")>>, <<W(",")>>}}
     \cup {<<J(<<Gl("\"", "“"), W("b"), r, W("."), Gl("\"", "”")>>), W("c")>> : r \in Nums}
\* a word which is no reference
Lits == {"[a]", "x[1", "1]", "[ 1 ]", "[1a]", "a [1] b", "[-1]"}

Blocks(m) ==
  CASE m = "seq" -> SeqBlocks
    [] m = "seq3" -> Seq3
    [] m = "places" -> Hosted(Places, HostKinds \ {"fn"})
    [] m = "places2" -> Hosted(Places2, {"p", "li", "td2", "h2"})
    [] m = "places3" -> Hosted(Places3, {"p", "dlt", "td2", "bq"})
    [] m = "defs" -> Defs
    [] m = "refdef" -> Defs \cup {P(<<Ref("1"), Ref("12")>>)}
    [] m = "lits" -> Hosted({<<W("x"), Gl(s, s), W("z")>> : s \in {"[a]", "x[1", "1]", "[ 1 ]", "[1a]", "[-1]"}}, {"p", "li", "td"})
Cfgs(m) == IF m = "seq3" THEN {Cfg0} ELSE BothModes
Init == DocInit(Cfgs(Model))
Next == Emit /\ Len(doc) < Depth /\ \E b \in Blocks(Model) : FnOk(doc, b) /\ Write(b)
\* every reference leads to its footnote whenever the footnote is there, and back
RefIds == {SubSeq(v, 6, Len(v)) : v \in {x \in AttValues(Html, "id") : StartsWith(x, "fnrev")}}
InvFoot ==
  /\ UniqueIds(Html)
  /\ \A n \in DOMAIN st.fns :
       LET id == st.fns[n]
           hasRef == ("fnrev" \o id) \in AttValues(Html, "id")
       IN hasRef
InitR == DocInit(BothModes \cup {Rel, [Cfg0 EXCEPT !.uid = "zz"]})
NextR ==
  \/ WalkEnd(Depth)
  \/ /\ Len(doc) < Depth
     /\ \E k \in {RE(1..3)} :
          IF k = 1 THEN \E b \in {RE(Defs \cup {Def("3"), DefB("2")})} : IF FnOk(doc, b) THEN WriteOrSkip(b) ELSE UNCHANGED vars
          ELSE \E t \in {RandText({"w", "w", "fr", "sp", "ln", "pun"}, 2)} : \E h \in {RE({"p", "px", "h2", "bq", "li", "td2", "dls"})} :
             IF HostFits(h, t) /\ FnOk(doc, Host(h, t)) THEN WriteOrSkip(Host(h, t)) ELSE UNCHANGED vars
=============================================================================
