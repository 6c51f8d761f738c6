------------------------------ MODULE MC_Spans ------------------------------
(* Phrase modifiers: C14 *)
EXTENDS Lib
CONSTANTS Model, Depth
Marks == {"*", "**", "_", "__", "??", "-", "+", "^", "~", "%"}
W1 == <<W("word")>>
W2 == <<W("two"), W("words")>>

\* every mark, every attribute list, everywhere
Single == {Sp(m, a, W2) : m \in Marks, a \in SpanAtts}
Ctx == UNION {Contexts(Sp(m, << >>, W1)) : m \in Marks}
Sq == {<<J(<<W("pre"), SpSq(m, a, b), W("post")>>)>> : m \in Marks, a \in {<< >>, <<cls>>}, b \in {W1, W2}}
\* two levels, tight and loose
Nest2 == {<<Sp(m, << >>, <<Sp(n, a, W1)>>)>> : m \in Marks, n \in Marks, a \in {<< >>, <<cls>>}}
   \cup {<<Sp(m, << >>, <<W("a"), Sp(n, << >>, W1), W("b")>>)>> : m \in Marks, n \in Marks}
Nest3 == {<<Sp(m, << >>, <<W("a"), Sp(n, << >>, <<Sp(o, << >>, W1), W("b")>>)>>)>> : m \in Marks, n \in Marks, o \in Marks}
\* phrases nest five levels deep
Nest5 == {Within(i, s, Within(i + d, << >>, Within(i + 2 * d, s, Within(i + 3 * d, << >>, Within(i + 4 * d, s, x))))) :
            i \in 1..10, d \in {1, 3}, s \in {<< >>, <<cls>>}, x \in {W1, W2}}
\* and deeper, whichever order the marks are in; what follows is not affected
Deeper == {DeepIn(i, d, n) : i \in 1..10, d \in {1, 3, 7, 9}, n \in {6, 8, 10}}
Later == {<<Sp(m, << >>, W1), W("x"), Sp("%", <<cls>>, <<W("y"), Sp("+", << >>, W1)>>)>> : m \in Marks}
\* a phrase lies within a line
Broken == {<<W("x"), Gl(m \o "one", m \o "one"), NL, Gl("two" \o m, "two" \o m), W("y")>> : m \in Marks}
     \cup {<<W("x"), Sp(m, << >>, <<W("a")>>), Gl(m \o "one", m \o "one"), NL, Gl("two" \o m, "two" \o m), Sp(m, <<cls>>, <<W("b"), W("c")>>)>> : m \in Marks}
Cites == {<<SpC(m, << >>, "http://example.com/", W1)>> : m \in {"*", "_", "??", "%"}}

\* the characters a phrase may follow and precede, alone and in pairs
Before == {"(", "«", "‹", "„", "“", "”", "‚", "‘", "’", ".", ",", ";", ":", "!", "?", "«(", "x:", "(„"}
Behind == {".", ",", ";", ":", "!", "?", "»", "›", "“", "”", "‘", "’", "«", ")", ").", "?!", "!!", "».", ",”", ".)", ")?", "””", "’s", ".b", ",b", "!b", "”b", "’b", "»b"}
Edges == UNION {{<<W("x"), J(<<W(l), Sp(m, << >>, W1)>>), W("y")>> : l \in Before \ (IF m = "??" THEN {"?"} ELSE {})} : m \in Marks}
    \cup {<<W("x"), J(<<Sp(m, << >>, W1), W(r)>>), W("y")>> : m \in Marks, r \in Behind}
    \cup {<<J(<<Gl("\"", "“"), Sp(m, a, W2), Gl("\"", "”")>>)>> : m \in Marks, a \in {<< >>, <<cls>>}}
    \cup {<<W("x"), J(<<Gl("'", "‘"), Sp(m, << >>, W2), Gl("'", "’")>>), W("z")>> : m \in Marks}
\* the punctuation a phrase may end with
Ends == {<<W("x"), Sp(m, << >>, <<W("two"), W("words" \o e)>>), W("y")>> : m \in Marks, e \in {".", ",", ";", ":", "!", "?", "?!", "…", "»", "’", "”", "!!", ")"}}

\* what is not a span
Lits == {"a*b*c", "5*6*7", "a_b_c", "snake_case_name", "a-b-c", "x^2", "a~b", "50%", "a%b%c", "open*", "x * spaced * y",
         "x _ y _ z", "a+b+c", "what??", "x- y", "a ** b ** c", "one*", "end_"}

Blocks(m) ==
  CASE m = "single" -> Hosted({<<s>> : s \in Single}, {"p", "li", "td"})
    [] m = "ctx" -> Hosted(Ctx, HostKinds)
    [] m = "edges" -> Hosted(Edges \cup Ends, {"p", "li", "td"})
    [] m = "sq" -> Hosted(Sq, {"p", "h2", "td"})
    [] m = "nest2" -> Hosted(Nest2, {"p"})
    [] m = "lit" -> Hosted({<<W("x"), Gl(s, s), W("z")>> : s \in Lits}, HostKinds)
    [] m = "cite" -> Hosted(Cites, {"p", "td"})
    [] m = "nest5" -> Hosted(Nest5, {"p", "td", "li"})
    [] m = "deep" -> IF doc = << >> THEN Hosted(Deeper, {"p", "td", "li"}) ELSE Hosted(Later, {"p"})
    [] m = "lines" -> Hosted(Broken, {"p", "bq", "td", "li"})
    [] m = "nest3" -> Hosted(Nest3, {"p"})
Cfgs(m) == BothModes
Init == DocInit(Cfgs(Model))
Next == Emit /\ Len(doc) < Depth /\ \E b \in Blocks(Model) : Write(b)
InitR == DocInit(BothModes \cup {Lite, LiteR, Xhtml})
NextR ==
  \/ WalkEnd(Depth)
  \/ /\ Len(doc) < Depth
     /\ WriteHosted({"p", "px", "h2", "bq", "li"} \cup (IF cfg.lite THEN {} ELSE {"td2"}), RandText({"w", "sp", "spsq", "pun", "par"}, 3))
=============================================================================
