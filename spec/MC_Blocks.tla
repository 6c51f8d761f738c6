------------------------------ MODULE MC_Blocks -----------------------------
(* The block structure of documents: paragraphs, headings, quotations, extended blocks, comments *)
EXTENDS Lib
CONSTANTS Model, Depth
W1 == <<W("word")>>
Bold == <<W("a"), Sp("*", << >>, <<W("bold")>>)>>
TwoLines == <<W("one"), NL, W("two")>>

\* each kind of block, plain and extended
Tagged(b) == UNION {{PX(x, << >>, b), H(x, "1", << >>, b), H(x, "2", << >>, b), H(x, "3", << >>, b), H(x, "4", << >>, b), H(x, "5", << >>, b),
                     H(x, "6", << >>, b), Bq(x, << >>, NoUrl, b), Bq(x, << >>, ex, b), Bq(x, << >>, rel2, b)} : x \in {FALSE, TRUE}}
Kinds1 == Tagged(Bold) \cup Tagged(TwoLines) \cup {P(Bold), P(TwoLines), Sps(Bold)}
Cites == {Bq(x, a, u, W1) : x \in {FALSE, TRUE}, a \in {<< >>, <<cls>>, <<idp>>, <<sty, lang>>},
          u \in {NoUrl, ex, exs, exq, rel1, rel2, mail, js, U("foo:x", "foo:x", "foo")}}

\* sequences: extended blocks, what continues them and what ends them
Core == {PX(TRUE, <<cls>>, W1), PX(FALSE, << >>, W1), H(TRUE, "2", <<cls>>, W1), H(FALSE, "1", << >>, W1), Bq(TRUE, <<cls>>, ex, W1),
         Bq(FALSE, << >>, NoUrl, W1), Bc(TRUE, <<cls>>, "code *x*"), Bc(FALSE, << >>, "code"), Pre(TRUE, << >>, "pre _x_"), Pre(FALSE, << >>, "pre"),
         NtB(TRUE, "<b>nt</b>", El("b", NoA, T("nt"))), NtB(FALSE, "<b>nt</b>", El("b", NoA, T("nt"))),
         Cm(TRUE, "comment"), Cm(FALSE, "comment"), P(Bold), P(TwoLines),
         Lst(<<Li("*", "", << >>, W1), Li("*", "", << >>, W1)>>),
         Tb(FALSE, << >>, "", NoCap, << >>, <<Row("", << >>, << >>, <<Cell(FALSE, << >>, W1)>>)>>),
         HtmlB("<div>raw</div>", El("div", NoA, T("raw"))), Fn("1", << >>, FALSE, W1), Sps(W1)}
Seq4 == {PX(TRUE, << >>, W1), Bq(TRUE, << >>, NoUrl, W1), Bc(TRUE, << >>, "code"), Pre(TRUE, << >>, "pre"), Cm(TRUE, "comment"),
         P(<<W("para")>>), PX(FALSE, << >>, W1), H(FALSE, "1", << >>, W1)}

\* what looks like a block tag and is none
Lits == {"h7. x", "p.x", "bq.x", "P. x", "h1 x", "px. y", "fn. x", "h0. x", "bc x", "b. x", "###x", "notextile x", "p x", "bq x", "h1.x", "h1 . x", "p .x", "bc.x", "pre x", "pre.x", "notextile.x", "fn1 x", "fn1.x", "h12. x", "bcx. y", "xp. y", "BQ. y", "H1. x", "p: x", "p, x", "h1, x", "note. x", "note# x", "notelist x", "notelist.x", "table. x", "table x", "fnx. y", "pre: x", "1. x", "h. x"}

Blocks(m) ==
  CASE m = "kinds" -> Kinds1
    [] m = "cites" -> Cites
    [] m = "seq" -> Core
    [] m = "seq4" -> Seq4
    [] m = "lits" -> {P(<<Gl(s, s)>>) : s \in Lits} \cup {P(<<W("a"), NL, Gl(s, s)>>) : s \in {"h1. x", "p. y", "bq. z", "fn1. x", "bc. x"}}
                     \cup {P(<<W("a"), Gl(s, s)>>) : s \in {"h1. x", "p. y", "bq. z", "# x", "* y"}}
Cfgs(m) == IF m = "seq4" THEN {Cfg0} ELSE IF m = "seq" THEN BothModes ELSE BothModes \cup {Xhtml}
Init == DocInit(Cfgs(Model))
Next == Emit /\ Len(doc) < Depth /\ \E b \in Blocks(Model) : Write(b)
InitR == DocInit(BothModes \cup {Xhtml, Rel})
NextR ==
  \/ WalkEnd(Depth)
  \/ /\ Len(doc) < Depth
     /\ \E c \in {RE(1..3)} :
          IF c = 1 THEN \E b \in {RE(Core \cup Kinds1 \cup Cites)} : WriteOrSkip(b)
          ELSE WriteHosted({"p", "px", "h2", "bq", "li", "td2", "fn"}, RandText({"w", "code", "sp", "ln"}, 2))
=============================================================================
