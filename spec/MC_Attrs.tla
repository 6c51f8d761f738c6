------------------------------ MODULE MC_Attrs ------------------------------
(* Attribute lists on everything that takes one *)
EXTENDS Lib
CONSTANTS Model, Depth
W1 == <<W("word")>>
\* all the parts, and which of them exclude one another
ClsParts == {cls, cls2, idp, ci, <<"cls", "c1">>, <<"ci", "a b", "x1">>}
StyParts == {sty, sty2, <<"sty", "color:red;">>, <<"sty", "font-size:1.5em">>}
LangParts == {lang, lang2, <<"lang", "fr">>}
AlParts == {alL, alR, alC, alJ}
PadParts == {pl(1), pl(3), pr(1), pr(2)}
SafeAl == {alC}
Group(p) == CASE p[1] \in {"cls", "id", "ci"} -> 1 [] p[1] = "sty" -> 2 [] p[1] = "lang" -> 3
              [] p[1] = "al" -> 4 [] p[1] = "pl" -> 5 [] p[1] = "pr" -> 6 [] p[1] = "va" -> 7 [] OTHER -> 8
\* "((class)" is ambiguous, and so is "(class))"
OkNext(p, q) == /\ Group(p) # Group(q)
                /\ ~(Group(p) = 5 /\ Group(q) \in {1, 5, 6})
                /\ ~(Group(p) \in {1, 5, 6} /\ Group(q) = 6)
                /\ ~(Group(p) = 6 /\ Group(q) = 1)
Ones(S) == {<<p>> : p \in S}
Twos(S) == {<<p, q>> : p \in S, q \in S} 
OkTwo(a) == OkNext(a[1], a[2])
Few == {cls, idp, ci, sty, lang, alC, pl(2), pr(1)}
All == ClsParts \cup StyParts \cup LangParts \cup AlParts \cup PadParts
\* in restricted mode "<" and ">" are text
NoAngle(a) == \A i \in 1..Len(a) : a[i] \notin {alL, alR, alJ}
Lists12 == {a \in Ones(All) \cup {b \in Twos(All) : OkTwo(b)} : TRUE}
Lists3 == {<<p, q, r>> : p \in Few, q \in Few, r \in Few}
\* the parts of one class (selectors; alignment and padding) stand together
Sel(p) == Group(p) <= 3
Ok3(a) == /\ ~(Sel(a[1]) = Sel(a[3]) /\ Sel(a[1]) # Sel(a[2]))
          /\ ~(Group(a[1]) = 5 /\ Group(a[3]) = 6)
          /\ OkNext(a[1], a[2]) /\ OkNext(a[2], a[3]) /\ Group(a[1]) # Group(a[3])
Basic == {<< >>} \cup Ones(Few)

OnBlocks(a) == {PX(FALSE, a, W1), H(FALSE, "3", a, W1)}
OnMore(a) == {Bq(FALSE, a, NoUrl, W1), Pre(FALSE, a, "word"), PX(TRUE, a, W1),
              Bq(TRUE, a, ex, W1), H(TRUE, "1", a, W1)}
\* lists take no alignment
OnLists(a) == {Lst(<<Li("*", "", a, W1), Li("*", "", << >>, W1)>>),
               Lst(<<Li("#", "", << >>, W1), Li("#", "", a, W1), Li("##", "", a, W1)>>),
               Lst(<<Li("#", "7", a, W1), Li("#", "", a, W1)>>),
               Lst(<<Li(";", "", a, W1), Li(":", "", a, W1)>>),
               Dls(<<Di(a, W1, W1)>>)}
SelLists == Ones(ClsParts \cup StyParts \cup LangParts) \cup {x \in Twos({cls, cls2, idp, ci, sty, sty2, lang}) : OkTwo(x)}
       \cup {x \in Lists3 : Ok3(x) /\ Sel(x[1]) /\ Sel(x[2])  /\ Sel(x[3])}
\* code blocks: the language goes to <code>
OnBc(a) == {Bc(FALSE, a, "word")}
\* footnotes and notes have attributes of their own
OnFn(a) == {Fn("1", a, b, W1) : b \in {FALSE, TRUE}}
\* tables: cells take vertical alignment and spans
\* (spans, then alignment, then selectors)
CellLists == {sp \o al \o c : sp \in {<< >>, <<<<"cs", "2">>>>, <<<<"rs", "3">>>>, <<<<"cs", "2">>, <<"rs", "3">>>>},
                               al \in {<< >>, <<alC>>}, c \in {<< >>} \cup SelLists}
        \cup {<<va>> \o c : va \in {vaT, vaM, vaB}, c \in {<< >>, <<alC>>, <<cls>>, <<sty, lang>>, <<alC, ci>>}}
RowLists == {al \o c : al \in {<< >>, <<alC>>}, c \in {<< >>} \cup SelLists}
T1(ta, sa, ra, ca) ==
  Tb(ta # << >>, ta, "", NoCap, << >>,
     <<Row(IF sa = << >> THEN "" ELSE "^", sa, << >>, <<Cell(FALSE, << >>, W1)>>),
       Row("", << >>, ra, <<Cell(FALSE, ca, W1), Cell(FALSE, << >>, W1)>>),
       Row("", << >>, ra, <<Cell(TRUE, IF "va" \in Kinds(ca) THEN << >> ELSE ca, W1)>>)>>)
OnTables == {T1(<< >>, << >>, << >>, a) : a \in CellLists} \cup {T1(<< >>, << >>, a, << >>) : a \in RowLists}
       \cup {T1(a, << >>, << >>, << >>) : a \in RowLists} \cup {T1(<< >>, a, << >>, << >>) : a \in RowLists}
       \cup {Tb(TRUE, << >>, "", Cap(a, "capt"), << >>, <<Row("", << >>, << >>, <<Cell(FALSE, << >>, W1)>>)>>) : a \in RowLists}

Blocks(m) ==
  CASE m = "blocks" -> UNION {OnBlocks(a) : a \in Lists12}
    [] m = "blocksr" -> UNION {OnBlocks(a) : a \in {x \in Lists12 : NoAngle(x)}}
    [] m = "three" -> UNION {OnBlocks(a) : a \in {x \in Lists3 : Ok3(x)}}
    [] m = "more" -> UNION {OnMore(a) : a \in Basic \cup {x \in Twos(Few) : OkTwo(x)}}
    [] m = "lists" -> UNION {OnLists(a) : a \in SelLists}
    [] m = "bc" -> UNION {OnBc(a) : a \in Ones(ClsParts \cup StyParts \cup LangParts) \cup {x \in Twos({cls, idp, ci, sty, lang}) : OkTwo(x)}}
    [] m = "fn" -> UNION {OnFn(a) : a \in Ones(ClsParts \cup StyParts \cup LangParts \cup {alC}) \cup {x \in Twos({cls, idp, ci, sty, lang}) : OkTwo(x)}}
    [] m = "tables" -> OnTables
    [] m = "spans" -> Hosted({<<W("x"), Sp(mk, a, W1), W("y")>> : mk \in AllMarks, a \in SpanAtts}, {"p"})
                 \cup Hosted({<<W("x"), Ln(a, W1, "", ex), W("y")>> : a \in SpanAtts}, {"p"})
                 \cup Hosted({<<W("x"), Im(al, a, pic, "", NoUrl), W("y")>> : al \in {"", ">"}, a \in SpanAtts}, {"p"})
Cfgs(m) == CASE m = "blocks" -> {Cfg0} [] m = "blocksr" -> {Restricted} [] OTHER -> BothModes
Init == DocInit(Cfgs(Model))
Next == Emit /\ Len(doc) < Depth /\ \E b \in Blocks(Model) : Write(b)
=============================================================================
