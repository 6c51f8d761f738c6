------------------------------ MODULE MC_Lists ------------------------------
(* Lists: bulleted, numbered, mixed, nested, continued; definition lists *)
EXTENDS Lib
CONSTANTS Model, Depth
Item(i) == <<W("item" \o ToString(i))>>
\* all the shapes (sequences of markers) of up to n items, up to 3 levels deep
Markers == {"*", "#", "**", "*#", "#*", "##", "***", "#*#", "*#*", "###", "**#", "##*"}
Shape(ms) == Lst([i \in 1..Len(ms) |-> Li(ms[i], "", << >>, Item(i))])
Shapes(n) == {b \in {Shape(ms) : ms \in [1..n -> Markers]} : WellFormedList(b.i)}
Deep == {Shape(<<"*", "**", "***", "****", "*****">>), Shape(<<"#", "##", "###", "####", "#####">>),
         Shape(<<"*", "**", "***", "****", "*">>), Shape(<<"#", "##", "###", "####", "##", "###", "#">>),
         Shape(<<"*", "*#", "*#*", "*#*#", "*#", "*">>),
         Shape(<<"*", "**", "**", "***", "**", "*", "**", "*">>)}
\* what an item may hold
Texts == {<<W("one"), NL, W("two")>>, <<W("a"), Sp("*", << >>, <<W("b")>>)>>, <<Ln(<< >>, <<W("l")>>, "", ex)>>, <<Code("c *d*")>>,
          <<Im("", << >>, pic, "", NoUrl)>>, <<W("x"), NL, Sp("_", <<cls>>, <<W("y")>>), NL, W("z")>>, <<W("größe")>>,
          <<J(<<W("f"), Fr("1")>>)>>, <<Cp("HTML")>>, <<W("a"), Gl("--", "—"), W("b")>>}
Bodies == UNION {{Lst(<<Li(m, "", << >>, t)>>), Lst(<<Li(m, "", << >>, t), Li(m, "", << >>, Item(2))>>),
                  Lst(<<Li(m, "", << >>, Item(1)), Li(m \o "*", "", << >>, t), Li(m \o "*", "", << >>, Item(3)), Li(m, "", << >>, t)>>),
                  Lst(<<Li(m, "", << >>, Item(1)), Li(m \o "#", "", << >>, t)>>)} : m \in {"*", "#"}, t \in Texts}
\* numbering: explicit starts and continuation, with other blocks between
Num1(s) == Lst(<<Li("#", s, << >>, Item(1))>>)
Num2(s) == Lst(<<Li("#", s, << >>, Item(1)), Li("#", "", << >>, Item(2))>>)
Starts == {Num1(""), Num2(""), Num1("5"), Num2("05"), Num2("1000"), Num2("123456"), Num2("10"), Num1("_"), Num2("_"), Num2("0"),
           Lst(<<Li("#", "3", <<cls>>, Item(1)), Li("#", "", <<sty>>, Item(2))>>),
           Lst(<<Li("*", "", << >>, Item(1)), Li("*#", "4", << >>, Item(2)), Li("*#", "", << >>, Item(3))>>),
           Lst(<<Li("*", "", << >>, Item(1)), Li("*#", "_", << >>, Item(2))>>),
           Lst(<<Li("#", "_", << >>, Item(1)), Li("##", "7", << >>, Item(2)), Li("##", "", << >>, Item(3)), Li("#", "", << >>, Item(4))>>),
           Lst(<<Li("#", "", << >>, Item(1)), Li("##", "_", << >>, Item(2))>>),
           P(<<W("para")>>)}
\* numbering at all levels: whole numbered lists, each (sub)list of which starts
\* anew or continues
NumShapes == {<<"#">>, <<"#", "##">>, <<"#", "##", "###">>, <<"#", "##", "###", "####">>, <<"#", "##", "#", "##">>,
              <<"#", "##", "###", "##", "###">>, <<"*", "*#", "*##", "*##">>, <<"*", "*#", "*", "*#", "*#">>}
OpensOl(ms, i) == IsOl(ms[i]) /\ (i = 1 \/ Len(ms[i]) > Len(ms[i - 1]))
NumLists == UNION {{Lst([i \in 1..Len(ms) |-> Li(ms[i], IF OpensOl(ms, i) THEN f[Len(ms[i])] ELSE "", << >>, Item(i))])
                    : f \in [1..4 -> {"", "_"}]} : ms \in NumShapes}
         \cup {P(<<W("para")>>)}
\* definition lists
DT(i) == Li(";", "", << >>, <<W("term" \o ToString(i))>>)
DD(i) == Li(":", "", << >>, <<W("def" \o ToString(i))>>)
Defs == {Lst(<<DT(1), DD(1)>>), Lst(<<DT(1), DD(1), DT(2), DD(2)>>), Lst(<<DT(1), DD(1), DD(2)>>), Lst(<<DT(1), DT(2), DD(1)>>),
         Lst(<<DT(1), DD(1), DT(2), DD(2), DD(3), DT(3), DD(4)>>)}
   \cup {Lst(<<Li(";", "", a, <<W("t")>>), Li(":", "", b, <<W("d")>>)>>) : a \in {<< >>, <<cls>>, <<sty>>}, b \in {<< >>, <<cls>>, <<lang>>}}
   \cup {Lst(<<DT(1), Li(":", "", << >>, t)>>) : t \in {x \in Texts : ~MultiLine(x)}}
   \cup {Dls(<<Di(<< >>, <<W("t")>>, <<W("d")>>)>>), Dls(<<Di(<<cls>>, <<W("t")>>, <<W("d")>>), Di(<< >>, <<W("t2")>>, <<W("d2")>>)>>)}
   \cup {Dls(<<Di(<< >>, <<W("t")>>, t), Di(<< >>, <<W("t2")>>, t)>>) : t \in {x \in Texts : ~MultiLine(x)}}
   \cup {Dls(<<Di(<< >>, t, <<W("d")>>)>>) : t \in {x \in Texts : ~MultiLine(x)}}
\* definitions of several lines, of several terms, as blocks
T2(x, y) == <<W(x), NL, W(y)>>
DefTerms == {<<W("t")>>, <<Sp("*", << >>, <<W("t")>>), W("u")>>, T2("t", "u"), <<Ln(<< >>, <<W("l")>>, "", ex)>>, <<Code("t := u")>>, <<Im("", << >>, pic, "", NoUrl)>>}
DefTexts == Texts \cup {<<W("d")>>, T2("d", "e"), <<W("d"), NL, W("e"), NL, W("f")>>, <<Code("x = y")>>, <<W("a"), NL, Ln(<< >>, <<W("l")>>, "", ex)>>}
DefX == {Dls(<<DiX(a, pre, t, d, w)>>) : a \in {<< >>, <<cls>>}, pre \in {<< >>, << <<W("s")>> >>, << <<W("r")>>, <<Sp("_", << >>, <<W("s")>>)>> >>},
           t \in DefTerms, d \in DefTexts, w \in BOOLEAN}
DefXX == {Dls(<<DiX(<< >>, p1, t1, d1, w1), DiX(<<lang>>, p2, T2("v", "w"), T2("x", "y"), w2), DiX(<< >>, << >>, <<W("z")>>, d1, FALSE)>>) :
           p1 \in {<< >>, << <<W("s")>> >>}, p2 \in {<< >>, << T2("r", "s") >>}, t1 \in {<<W("t")>>, T2("t", "u")},
           d1 \in {<<W("d")>>, T2("d", "e")}, w1 \in BOOLEAN, w2 \in BOOLEAN}
DefX2 == {Lst(<<DT(1), Li(":", "", << >>, t), DT(2), Li(":", "", << >>, u)>>) : t \in Texts, u \in Texts}
   \cup {Lst(<<DT(1), Li(":", "", << >>, t), Li(":", "", << >>, u)>>) : t \in Texts, u \in {<<W("d")>>, T2("d", "e")}}
AttItems == {Lst(<<Li(m, "", a, Item(1)), Li(m, "", b, Item(2)), Li(m \o "*", "", c, Item(3)), Li(m, "", b, Item(4))>>)
             : m \in {"*", "#"}, a \in {<< >>, <<cls>>, <<idp>>, <<sty>>}, b \in {<< >>, <<cls>>, <<lang>>}, c \in {<< >>, <<cls>>, <<ci>>}}
\* a list in the middle of other blocks
Around == {P(<<W("para")>>), H(FALSE, "1", << >>, <<W("head")>>), Shape(<<"*", "*">>), Shape(<<"#", "##", "#">>), Shape(<<"*", "**">>),
           Lst(<<DT(1), DD(1)>>), Dls(<<Di(<< >>, <<W("t")>>, <<W("d")>>)>>), Bq(FALSE, << >>, NoUrl, <<W("quote")>>),
           Tb(FALSE, << >>, "", NoCap, << >>, <<Row("", << >>, << >>, <<Cell(FALSE, << >>, <<W("c")>>)>>)>>)}
\* what is no list
Lits == {"*x", "#x", "a * b", "- a", "x\n*y", "**x", ";x", "a # b"}

Blocks(m) ==
  CASE m = "shapes3" -> Shapes(1) \cup Shapes(2) \cup Shapes(3) \cup Deep
    [] m = "shapes4" -> Shapes(4)
    [] m = "shapes5" -> Shapes(5)
    [] m = "bodies" -> Bodies
    [] m = "starts" -> Starts
    [] m = "nums" -> NumLists
    [] m = "defs" -> Defs
    [] m = "defx" -> DefX
    [] m = "defxx" -> DefXX
    [] m = "defx2" -> DefX2
    [] m = "atts" -> AttItems
    [] m = "around" -> Around
    [] m = "lits" -> {P(<<Gl(s, s)>>) : s \in {"*x", "#x", "a * b", "- a", "a # b", ";x", ":x"}}
Cfgs(m) == IF m \in {"shapes5", "nums"} THEN {Cfg0} ELSE IF m \in {"defx", "defxx", "defx2"} THEN {Cfg0, Restricted, Xhtml, Lite} ELSE BothModes
Init == DocInit(Cfgs(Model))
Next == Emit /\ Len(doc) < Depth /\ \E b \in Blocks(Model) : Write(b)

\* random lists: an item either continues a level, goes one deeper, or returns
RECURSIVE RandItems(_, _)
RandItems(its, n) ==
  IF n = 0 THEN its
  ELSE LET prev == its[Len(its)].m
           l == RE(1..(IF Len(prev) < 4 THEN Len(prev) + 1 ELSE Len(prev)))
           m == IF l > Len(prev) THEN prev \o RE({"*", "#"}) ELSE SubSeq(prev, 1, l)
           s == IF l > Len(prev) /\ Ch(m, Len(m)) = "#" THEN RE({"", "", "", "_", "_", "2", "12"}) ELSE ""
       IN RandItems(Append(its, Li(m, s, RE({<< >>, << >>, <<cls>>, <<sty, lang>>}), RandText({"w", "w", "sp", "ln", "code", "im"}, 1))), n - 1)
RandList(i) ==
  LET m == RE({"*", "#"})
      s == IF m = "#" THEN RE({"", "", "", "_", "4", "100"}) ELSE ""
  IN RandItems(<<Li(m, s, << >>, RandLine({"w", "sp", "ln"}, 1))>>, RE(0..8))
NextR ==
  \/ WalkEnd(Depth)
  \/ /\ Len(doc) < Depth
     /\ \E c \in {RE(1..3)} :
          IF c = 1 THEN \E b \in {RE(Around \cup Starts)} : WriteOrSkip(b)
          ELSE \E l \in {RandList(Len(doc))} :
                 IF \A i \in 1..Len(l) : ProperAll(l[i].b) THEN WriteOrSkip(Lst(l)) ELSE UNCHANGED vars
InitR == DocInit(BothModes)
=============================================================================
