------------------------------- MODULE MC_Code ------------------------------
(* Code, preformatted text and escaping from Textile: taken verbatim *)
EXTENDS Lib
CONSTANTS Model, Depth
\* Text which would mean something else outside of code
Tricky == {"x", "*a*", "_a b_", "\"l\":http://x.y", "!a.png!", "a[1]", "a[#n]", "h1. x", "a -- b", "wait...", "(c)", "2 x 3",
           "<b>bold</b>", "a < b", "a > b", "a && b", "&amp;", "&lt;b&gt;", "\"q\"", "it's", "ABC(def)", "ABCDEF", "|a|b|", "* a", "# a",
           "%x%", "a_b_c", "?q?", "==a==", "- a := b", "größe", "<script>x</script>", "a\\b", "$1", "${x}", "[1/2]", "\"$\":x", "fn1. x",
           "<!-- c -->", "x = \"a\" + 'b'", "http://x.y/?a=1&b=2"}
InlineOk == {t \in Tricky : TRUE}
\* "@" phrases everywhere
At == {<<Code(t)>> : t \in InlineOk} \cup {<<W("see"), Code(t), W("now")>> : t \in InlineOk}
  \cup {<<W("see"), J(<<Code(t), W(".")>>)>> : t \in InlineOk} \cup {<<Paren(Code(t))>> : t \in InlineOk}
  \cup {<<Code(t), Code("y")>> : t \in InlineOk}
AtHosts == {"p", "px", "h2", "bq", "li", "td", "fn", "dls"}
Tags == {<<W("see"), CodeT(t), W("now")>> : t \in InlineOk \ {"<b>bold</b>", "==a=="}}
   \cup {<<W("see"), PreT(t), W("now")>> : t \in InlineOk \ {"==a=="}}
\* == == and <notextile>: the text is left alone
NtTexts == {<<t, T(t)>> : t \in {"x", "*a*", "_a b_", "\"l\":http://x.y", "!a.png!", "a[1]", "a -- b", "wait...", "(c)", "2 x 3", "\"q\"", "it's",
             "ABC(def)", "ABCDEF", "%x%", "größe", "$1", "[1/2]", "@x@", "a @x@ b", "a *b* c"}}
      \cup {<<"<b>*x*</b>", El("b", NoA, T("*x*"))>>, <<"<i class=\"c\">-y-</i>", El("i", A("class", "c"), T("-y-"))>>}
Nts(ds) == UNION {{<<Nt(d, t[1], t[2])>>, <<W("see"), Nt(d, t[1], t[2]), W("now")>>} : d \in ds, t \in NtTexts}
\* blocks
Multi == {"one\ntwo", "  indented\n    more", "*a*\n_b_", "<a>\n</a>", "a\n\tb", "# x\n# y", "|a|\n|b|"}
Content == Tricky \cup Multi
BlockSet == {Bc(x, a, s) : x \in {FALSE}, a \in {<< >>, <<cls>>, <<lang>>, <<lang, cls>>}, s \in Content}
       \cup {Pre(x, a, s) : x \in {FALSE}, a \in {<< >>, <<cls>>}, s \in Content}
NtBlocks == {NtB(FALSE, t[1], t[2]) : t \in NtTexts}
\* extended: what follows belongs to the block
Seqs == {Bc(TRUE, << >>, "a *b*"), Bc(FALSE, <<cls>>, "c _d_"), Pre(TRUE, << >>, "e -f-"), Pre(FALSE, << >>, "g +h+"),
         P(<<W("para")>>), P(<<Sp("*", << >>, <<W("bold")>>)>>), Lst(<<Li("*", "", << >>, <<W("i")>>), Li("*", "", << >>, <<W("j")>>)>>),
         PX(FALSE, << >>, <<W("end")>>), H(FALSE, "1", << >>, <<Code("k")>>),
         Tb(FALSE, << >>, "", NoCap, << >>, <<Row("", << >>, << >>, <<Cell(FALSE, << >>, <<W("c")>>)>>)>>),
         P(<<Ln(<< >>, <<W("l")>>, "", ex)>>), HtmlB("<div>d</div>", El("div", NoA, T("d"))), Cm(FALSE, "comment"), Bq(TRUE, << >>, NoUrl, <<W("q")>>),
         NtB(TRUE, "<b>*n*</b>", El("b", NoA, T("*n*"))), NtB(FALSE, "*m*", T("*m*"))}

\* blank lines within an extended block are a part of it
Gapped == {"a\n\n\nb", "a\n\nb\n\n\n\n  c", "*a*\n\n* b\n* c\n\n\n|d|e|", "a\n\n\tb\n\n\n\t\tc", "a\n\n    b", "<p>\n\n\n</p>", "a\n\n\n[x]http://example.com\n\nb", "a\n\nfn(1)\n\n\nnote", "\"q\"\n\n(c) -- 'x'"}
GapSeqs == {Bc(TRUE, a, s) : a \in {<< >>, <<cls>>, <<lang>>}, s \in Gapped} \cup {Pre(TRUE, << >>, s) : s \in Gapped} \cup {NtB(TRUE, s, T(s)) : s \in Gapped \ {"<p>\n\n\n</p>"}}
       \cup {P(<<W("para")>>), PX(FALSE, << >>, <<Sp("*", << >>, <<W("end")>>)>>), Lst(<<Li("*", "", << >>, <<W("i")>>)>>)}
\* where code is not code (lite mode; HTML tags in restricted mode) the text is just text
Inert == {"x", "größe", "h1. x", "a_b_c", "a\\b", "$1", "fn1. x", "a < b", "a && b"}
LiteAt == {<<W("see"), Code(t), W("now")>> : t \in Inert} \cup {<<Paren(Code(t))>> : t \in Inert}
RTags == UNION {{<<W("see"), CodeT(t), W("now")>>, <<W("see"), PreT(t), W("now")>>, <<W("see"), Nt("<notextile>", t, T(t)), W("now")>>}
                : t \in Inert}

Blocks(m) ==
  CASE m = "at" -> Hosted(At, AtHosts)
    [] m = "lite" -> Hosted(LiteAt, {"p", "px", "li", "td", "h2"})
    [] m = "rtags" -> Hosted(RTags, {"p", "li"})
    [] m = "tags" -> Hosted(Tags, {"p", "li"})
    [] m = "nt" -> Hosted(Nts({"=="}), {"p", "li", "td", "h2"})
    [] m = "nttag" -> Hosted(Nts({"<notextile>"}), {"p", "li", "td", "h2"})
    [] m = "blocks" -> BlockSet \cup NtBlocks
    [] m = "seq" -> Seqs
    [] m = "gaps" -> GapSeqs
Cfgs(m) == CASE m = "lite" -> {Lite, LiteR} [] m = "rtags" -> {Restricted} [] m \in {"tags", "nttag"} -> {Cfg0} [] OTHER -> BothModes
Init == DocInit(Cfgs(Model))
Next == Emit /\ Len(doc) < Depth /\ \E b \in Blocks(Model) : Write(b)
InitR == DocInit(BothModes)
NextR ==
  \/ WalkEnd(Depth)
  \/ /\ Len(doc) < Depth
     /\ \E c \in {RE(1..3)} :
          IF c = 1 THEN \E b \in {RE(Seqs \cup BlockSet \cup NtBlocks)} : WriteOrSkip(b)
          ELSE WriteHosted({"p", "px", "h2", "bq", "li", "td2", "fn"}, RandText({"w", "code", "sp", "par", "pun", "ln"}, 2))
=============================================================================
