------------------------------ MODULE MC_Notes ------------------------------
(* Endnotes: references, definitions, note lists *)
EXTENDS Lib
CONSTANTS Model, Depth
Ref(l) == J(<<W("ref"), Nr(l)>>)
RefX(l) == J(<<W("ref"), NrX(l)>>)
Def(l) == Nd(l, "", << >>, <<W("text-" \o l)>>)
List == Nlist(<< >>, "", "", FALSE)
ListP == Nlist(<< >>, "", "", TRUE)
SeqBlocks == {P(<<Ref("a1")>>), P(<<Ref("b2"), Ref("a1")>>), P(<<RefX("a1")>>), P(<<Ref("c3"), Ref("c3")>>), Def("a1"), Def("b2"), Nd("a1", "^", <<cls>>, <<W("second")>>),
        Nd("c3", "!", << >>, <<W("text3")>>), Nd("d4", "", << >>, <<W("text4")>>), List, ListP, Nlist(<<cls>>, "", "^", FALSE), Nlist(<< >>, "", "!", TRUE)}
Seq4 == {P(<<Ref("a1")>>), P(<<Ref("b2")>>), Def("a1"), Def("b2"), ListP}
\* numbering of many notes: references in all kinds of order
Many(ls) == P([i \in 1..Len(ls) |-> Ref(ls[i])])
L12 == <<"a1", "b2", "c3", "d4", "e5", "f6", "g7", "h8", "i9", "j10", "k11", "l12">>
Rev == [i \in 1..12 |-> L12[13 - i]]
ManyBlocks == {Many(L12), Many(Rev), Many(SubSeq(L12, 5, 12)), Many(SubSeq(Rev, 3, 12)), List, ListP, Def("a1"), Def("l12"), Def("j10")}
\* kinds of back links
Lists == {Nlist(a, s, l, p) : a \in {<< >>, <<cls>>, <<<<"ci", "cl", "lst">>>>, <<sty, lang>>}, s \in {"", "a", "b", "1", "3", "§"}, l \in {"", "^", "!"}, p \in BOOLEAN}
Heads == {P(<<Ref("a1"), Ref("b2"), Ref("a1"), Ref("c3")>>), Nd("a1", "*", <<idp>>, <<W("one")>>), Nd("b2", "^", << >>, <<W("two")>>), Nd("c3", "!", <<cls>>, <<W("three")>>)}
\* where references may stand, what a note may say
Places == UNION {{<<J(<<W("word"), r>>)>>, <<W("a"), J(<<W("word"), r>>), W("b")>>, <<J(<<W("word"), r, W(".")>>)>>,
                  <<Sp("*", << >>, <<W("x"), J(<<W("word"), r>>), W("y")>>)>>, <<Ln(<< >>, <<W("l")>>, "", ex), J(<<W("word"), r>>)>>,
                  <<W("a"), NL, J(<<W("word"), r>>)>>, <<J(<<W("w"), r>>), J(<<W("v"), Nr("note")>>)>>} : r \in {Nr("a1"), NrX("a1"), Nr("x-y"), [Nr("a1") EXCEPT !.a = <<cls>>]}}
Stems == {Sp("*", << >>, <<W("b")>>), Sp("_", <<cls>>, <<W("b"), W("c")>>), Code("x"), Code("a *b*"), Ac("ABC", "title"), Cp("HTML"), Paren(W("a")), Gl("\"q\"", "“q”"), Gl("'q'", "‘q’"), Gl("so...", "so…"),
          Gl("(c)", "©"), W("x?"), W("x:"), W("—"), W("слово"), W("42"), Gl("it's", "it’s"), J(<<W("w"), Nr("b2")>>), J(<<W("w"), NrX("a1"), Nr("c3")>>), J(<<W("w"), Fr("1")>>)}
Tails2 == {<< >>, <<W(",")>>, <<W(".")>>, <<W("?")>>, <<W(")")>>, <<Gl("...", "…")>>, <<W("x")>>}
Refs2 == {Nr("a1"), NrX("b2"), [Nr("x-y") EXCEPT !.a = <<sty>>]}
Places2 == {<<W("a"), J(<<x, r>> \o t), W("b")>> : x \in Stems, r \in Refs2, t \in Tails2}
     \cup {<<r, W("b")>> : r \in Refs2} \cup {<<W("a"), r, W("b")>> : r \in Refs2} \cup {<<r>> : r \in Refs2} \cup {<<W("a"), r, NL, r2, W("c")>> : r \in Refs2, r2 \in Refs2}
     \cup {<<Sp(m, << >>, <<J(<<W("b"), r>>)>>)>> : m \in {"*", "_", "-", "??", "%"}, r \in Refs2}
     \cup {<<J(<<Gl("\"", "“"), W("b"), r, Gl("\"", "”")>>), W("c")>> : r \in Refs2}
Texts == {<<W("plain")>>, <<W("a"), Sp("*", << >>, <<W("b")>>)>>, <<Ln(<< >>, <<W("l")>>, "", ex)>>, <<Code("c *d*")>>,
          <<Im("", << >>, pic, "", NoUrl)>>, <<Cp("HTML"), Gl("--", "—"), W("x")>>}
Defs == {Nd(l, k, a, t) : l \in {"a1", "x-y"}, k \in {"", "^", "!", "*"}, a \in {<< >>, <<cls>>, <<sty>>}, t \in Texts}

\* the names of notes
Names == {"n", "N", "1", "22", "some", "a-b", "a_b", "a:b", "größe", "слово", "a/b", "x1y2"}
Lists2 == {Nlist(<< >>, s, l, p) : s \in {"", "1"}, l \in {"", "^", "!"}, p \in BOOLEAN} \cup {Nlist(<<cls>>, "", "^", FALSE), Nlist(<<sty>>, "", "", TRUE), Nlist(<<sty>>, "", "", FALSE)}
Blocks(m) ==
  CASE m = "seq" -> SeqBlocks
    [] m = "seq4" -> Seq4
    [] m = "many" -> ManyBlocks
    [] m = "lists" -> Lists
    [] m = "lists2" -> Lists2
    [] m = "places" -> Hosted(Places, HostKinds)
    [] m = "places2" -> Hosted(Places2, {"p", "li", "td2", "h2", "dlw"})
    [] m = "names" -> {P(<<Ref(n), J(<<W("x"), NrX(n)>>)>>) : n \in Names} \cup {Nd(n, k, << >>, <<W("def")>>) : n \in Names, k \in {"", "*"}}
    [] m = "defs" -> Defs
Prologue(m) == CASE m \in {"lists", "lists2"} -> <<P(<<Ref("a1"), Ref("b2"), Ref("a1"), Ref("c3"), Ref("e5")>>), Nd("a1", "*", <<idp>>, <<W("one")>>), Nd("b2", "^", << >>, <<W("two")>>),
                                     Nd("c3", "", <<cls>>, <<W("three")>>), Nd("d4", "", <<cls>>, <<W("uncited")>>)>>
                 [] m \in {"places2"} -> <<Nd("x-y", "", << >>, <<W("xy")>>), List>>
                 [] m = "places" -> <<Nd("x-y", "", << >>, <<W("xy")>>), List>>
                 [] m = "names" -> <<List>>
                 [] m = "defs" -> <<ListP, P(<<Ref("a1"), Ref("x-y"), Ref("a1")>>)>>
                 [] OTHER -> << >>
Cfgs(m) == IF m \in {"seq4", "many"} THEN {Cfg0} ELSE BothModes
Init == DocInit(Cfgs(Model))
Next == /\ (Len(doc) > Len(Prologue(Model)) => Emit)
        /\ IF Len(doc) < Len(Prologue(Model)) THEN Write(Prologue(Model)[Len(doc) + 1])
           ELSE Len(doc) < Depth + Len(Prologue(Model)) /\ \E b \in Blocks(Model) : Write(b)
\* each note has one number, numbers go in the order of the first references, each reference id is unique,
\* each back link leads to a reference
InvNotes ==
  \* the identifiers of a document are unique as long as there is one list of notes
  /\ Cardinality({i \in 1..Len(doc) : doc[i].k = "nl"}) < 2 => UniqueIds(Html)
  /\ \A i, j \in 1..Len(st.notes) : (i # j /\ st.notes[i].seq # 0) => st.notes[i].seq # st.notes[j].seq
  /\ {st.notes[i].seq : i \in 1..Len(st.notes)} \ {0} = 1..st.nseq
  /\ \A v \in AttValues(Html, "href") : StartsWith(v, "#noteref") => SubSeq(v, 2, Len(v)) \in AttValues(Html, "id")
InitR == DocInit(BothModes \cup {Rel, [Cfg0 EXCEPT !.uid = "zz"]})
NextR ==
  \/ WalkEnd(Depth)
  \/ /\ Len(doc) < Depth
     /\ \E k \in {RE(1..4)} :
          IF k = 1 THEN \E b \in {RE(Defs \cup {Def(l) : l \in {"b2", "c3", "d4", "h8"}})} : WriteOrSkip(b)
          ELSE IF k = 2 THEN \E b \in {RE(Lists \cup {P(<<W("para")>>)})} : WriteOrSkip(b)
          ELSE WriteHosted({"p", "px", "h2", "bq", "li", "td2", "dls", "fn"}, RandText({"w", "w", "nr", "nr", "sp", "ln", "pun"}, 2))
=============================================================================
