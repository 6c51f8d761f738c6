----------------------------- MODULE MC_Glyphs -----------------------------
(* Typography: quotes, dashes, signs, acronyms and capitals *)
EXTENDS Lib
CONSTANTS Model, Depth
G(s, o) == Gl(s, o)
\* ------------------------------------------------------------- what is replaced
Apostrophes == {G("it's", "it’s"), G("don't", "don’t"), G("rock'n'roll", "rock’n’roll"), G("d'été", "d’été"), G("o'clock", "o’clock"), G("x's", "x’s"), G("ПО'ПО", "ПО’ПО")}
Doubles == {G("\"quoted\"", "“quoted”"), G("\"two words\"", "“two words”"), G("\"a, b.\"", "“a, b.”"), G("\"größe\"", "“größe”"), G("\"q?\"", "“q?”"), G("\"1\"", "“1”"),
            G("\"say 'this' now\"", "“say ‘this’ now”"), G("\"it's\"", "“it’s”")}
Singles == {G("'single'", "‘single’"), G("'two words'", "‘two words’"), G("'a, b.'", "‘a, b.’"), G("'größe'", "‘größe’"), G("'don't'", "‘don’t’"), G("'say \"this\" now'", "‘say “this” now’")}
Dots == {G("wait...", "wait…"), G("...", "…"), G("a...b", "a…b"), G("...so", "…so"), G("so....", "so….")}
Dashes == {G("a--b", "a—b"), G("a -- b", "a — b"), G("--", "—"), G("a - b", "a – b"), G("1 - 2", "1 – 2"), G("größe -- ö", "größe — ö")}
Signs == {G("(c)", "©"), G("(C)", "©"), G("[c]", "©"), G("(r)", "®"), G("[R]", "®"), G("(tm)", "™"), G("(TM)", "™"), G("[tm]", "™"), G("Name(tm)", "Name™"), G("Name (r)", "Name ®"), G("(c) 2024", "© 2024")}
Numbers == {G("(1/2)", "½"), G("[1/2]", "½"), G("(1/4)", "¼"), G("[1/4]", "¼"), G("(3/4)", "¾"), G("[3/4]", "¾"), G("(o)", "°"), G("[o]", "°"), G("20[o]", "20°"), G("(+/-)", "±"), G("[+/-]", "±"), G("5[1/2]", "5½")}
Sizes == {G("2x3", "2×3"), G("2 x 3", "2 × 3"), G("2 X 3", "2 × 3"), G("10x20x30", "10×20×30"), G("10 x 20 x 30", "10 × 20 × 30"), G("2 x 3.5", "2 × 3.5"), G("2x-3", "2×-3"), G("2 x $5", "2 × $5"), G("2 x £5", "2 × £5"), G("2x¥5", "2×¥5"), G("3 x ₽7", "3 × ₽7"), G("3 x $ 7", "3 × $ 7"), G("2 x 3 x 4.5", "2 × 3 × 4.5"), G("100x100", "100×100"), G("1024 x 768", "1024 × 768")}
Ands == {G("a & b", "a & b"), G("AT&T", "AT&T"), Raw("&amp;", T("&")), Raw("&lt;", T("<")), Raw("&#169;", T("©")), Raw("&eacute;", T("é")), Raw("&#x3b1;", T("α"))}
Acros == {Ac("ABC", "title"), Ac("HTML", "Hyper Text"), Ac("W3C", "x"), Ac("USA", "it"), Ac("NATO", "größe"), Ac("ABC", "a & b")}
Capitals == {Cp("NASA"), Cp("ABC"), Cp("ÄÖÜ"), Cp("ABCDEFG")}
\* the same next to brackets, punctuation and each other
More == {
  G("(a)'s", "(a)’s"), G("('q')", "(‘q’)"), G("['q']", "[‘q’]"), G("{'q'}", "{‘q’}"), G("(\"q\")", "(“q”)"), G("{\"q\"}", "{“q”}"), G("[\"q r\"]", "[“q r”]"), G("'a'-b", "‘a’-b"), G("\"a\"-b", "“a”-b"),
  G("the '90s", "the ’90s"), G("in '88", "in ’88"), G("'a' 'b'", "‘a’ ‘b’"), G("\"a\" \"b\"", "“a” “b”"), G("\"a\", \"b\"", "“a”, “b”"), G("'a'; 'b'", "‘a’; ‘b’"), G("\"(a)\"", "“(a)”"), G("\"a (b)\"", "“a (b)”"), G("'a (b)'", "‘a (b)’"),
  G("l'été", "l’été"), G("1'000", "1’000"), G("a_b's", "a_b’s"), G("\"a\"?", "“a”?"), G("\"a!\"", "“a!”"), G("'a'!", "‘a’!"), G("x='y'", "x=‘y’"),
  G("2\"x3\"", "2”×3”"), G("5' x 6'", "5’ × 6’"), G("(2x3)", "(2×3)"), G("2x€3", "2×€3"), G("2 x +4", "2 × +4"), G("3x.5", "3×.5"), G("12 X 4", "12 × 4"), G("(2) x 3", "(2) × 3"), G("1x2 3x4", "1×2 3×4"), G("2 x (3)", "2 × (3)"), G("2 x [3]", "2 × [3]"), G("1.5 x 2.5", "1.5 × 2.5"),
  G("a......b", "a……b"), G("a ... b", "a … b"), G("(...)", "(…)"), G("\"...\"", "“…”"), G("a...!", "a…!"),
  G("a--", "a—"), G("a -- -- b", "a — — b"), G("a - b - c", "a – b – c"), G("a -b", "a -b"), G("(a -- b)", "(a — b)"), G("1--2", "1—2"), G("a.--b", "a.—b"),
  G("a && b", "a && b"), G("& b", "& b"), G("R&D", "R&D"), G("a&b;c", "a&b;c"), G("a & b & c", "a & b & c"),
  G("x(c)", "x©"), G("x(r) y(tm)", "x® y™"), G("[TM]x", "™x"), G("5(1/4)", "5¼"), G("a(3/4)b", "a¾b"), G("20(o)C", "20°C"), G("x(+/-)y", "x±y"), G("[1/2][1/4]", "½¼"), G("(c)x", "©x")}
MoreCaps == {J(<<Cp("NASA"), Gl("'s", "’s")>>), J(<<Cp("ABC"), W("-"), Cp("DEF")>>), J(<<Gl("\"", "“"), Cp("NASA"), Gl("\"", "”")>>), J(<<W("x-"), Cp("ABC")>>), J(<<Cp("ABC"), W("d")>>), J(<<Cp("ABC"), W("_")>>), J(<<W("x;"), Cp("ABC")>>),
             J(<<Ac("ABC", "t"), Gl("'s", "’s")>>), J(<<W("("), Ac("ABC", "t"), W(")")>>), J(<<Gl("\"", "“"), Ac("ABC", "a b"), Gl("\"", "”")>>), J(<<Ac("ABC", "t"), W("/"), Ac("DEF", "u")>>), Ac("ABC", "a-b, c."), Ac("ABC", "1"), Ac("ABC", "é ü"), Ac("ÄÖÜ", "t"), Ac("A1B2", "t"), Ac("ABC", "x & y")}
\* ---------------------------------------------------------- what is left alone
Plain == {W("xy"), W("a-b"), W("a.b"), W("a_b"), W("1/2"), W("(a)"), W("[x]"), W("(1/3)"), W("AB"), W("ABc"), W("aBC"), W("2xy"), W("0xff"), W("(cc)"), W("(t)"), W("(tmx)"),
          W("1.5"), W("a/b"), W("+/-"), W("o"), W("5%"), W("a=b"), W("C3"), W("(oo)"), W("50-60"), W("3,5"), W("xABC"), W("A.B.C."), W("x(t"), W("..b"), W("(1/5)"), W("[2/3]"), W("-x"), W("x:y"), W("axb"), W("2x_"), W("a;b"), W("(c"), W("(ctm)")}
Units(m) ==
  CASE m = "quotes" -> Apostrophes \cup Doubles \cup Singles
    [] m = "signs" -> Dots \cup Dashes \cup Signs \cup Numbers \cup Sizes \cup Ands
    [] m = "caps" -> Acros \cup Capitals
    [] m = "plain" -> Plain
    [] m = "more" -> More \cup MoreCaps
Few == {G("it's", "it’s"), G("\"two words\"", "“two words”"), G("'single'", "‘single’"), G("wait...", "wait…"), G("a -- b", "a — b"), G("a - b", "a – b"), G("(c)", "©"), G("[1/2]", "½"), G("2 x 3", "2 × 3"),
        G("a & b", "a & b"), Ac("ABC", "title"), Cp("NASA"), W("a-b")}
In(n) == {<<W("x"), Sp("*", << >>, <<W("y"), n, W("z")>>)>>, <<W("x"), Sp("_", <<cls>>, <<W("y"), n, W("z")>>), W("w")>>,
          <<W("x"), Ln(<< >>, <<W("y"), n, W("z")>>, "", ex), W("w")>>,
          <<W("x"), Code("y"), n>>, <<Im("", << >>, pic, "", NoUrl), W("y"), n>>,
          <<J(<<W("x"), Fr("1")>>), n, W("y")>>}
\* quotes around anything, next to any punctuation
QuotedThings == {<<W("q")>>, <<W("two"), W("words")>>, <<Sp("*", << >>, <<W("q")>>)>>, <<Sp("_", <<cls>>, <<W("q"), W("r")>>)>>, <<W("see"), Code("q *r*")>>, <<Ac("ABC", "t")>>, <<Cp("NASA")>>, <<W("q"), Sp("^", << >>, <<W("r")>>)>>,
                 <<J(<<W("q"), Fr("1")>>)>>, <<J(<<W("q"), Nr("a1")>>)>>, <<J(<<W("q"), NrX("b2")>>)>>, <<W("see"), Raw("<b>q</b>", El("b", NoA, T("q")))>>, <<W("größe")>>, <<W("42")>>, <<W("q.")>>, <<W("q,"), W("r!")>>, <<G("it's", "it’s")>>, <<G("so...", "so…")>>, <<W("a-b")>>, <<W("(q)")>>}
Quoting(q, x) == LET o == IF q = "\"" THEN Gl(q, "“") ELSE Gl(q, "‘")
                     c == IF q = "\"" THEN Gl(q, "”") ELSE Gl(q, "’")
                 IN IF Len(x) = 1 THEN <<J(<<o, x[1], c>>)>> ELSE <<J(<<o, x[1]>>)>> \o SubSeq(x, 2, Len(x) - 1) \o <<J(<<x[Len(x)], c>>)>>
Enclose(l, x, r) == [i \in 1..Len(x) |-> LET y == IF i = 1 /\ l # "" THEN J(<<W(l), x[i]>>) ELSE x[i] IN IF i = Len(x) /\ r # "" THEN J(<<y, W(r)>>) ELSE y]
QPunct == UNION {{<<W("x")>> \o Enclose("", Quoting(q, x), t) \o <<W("y")>>, Enclose("", Quoting(q, x), t), <<W("x")>> \o Enclose("(", Quoting(q, x), ")" \o t)} : q \in {"\"", "'"}, x \in QuotedThings, t \in {"", ",", ".", ";", "!", "?"}}
\* right at the marks and brackets
Tight(n) == {<<W("x"), Sp("*", << >>, <<n>>), W("y")>>, <<Sp("_", <<cls>>, <<n>>)>>, <<Sp("+", << >>, <<n>>), W("y")>>, <<W("x"), Sp("%", << >>, <<n>>)>>,
             <<W("x"), Ln(<< >>, <<n>>, "", ex), W("y")>>,
             <<W("x"), n, Sp("*", << >>, <<W("y")>>)>>, <<Sp("*", << >>, <<W("y")>>), n>>}
\* (a sign within brackets is none)
InBrackets(n) == {<<Paren(n)>>, <<W("x"), Paren(n), W("y")>>}
\* (what holds the mark of the phrase around it would end that phrase)
Closing == {W("2x_"), J(<<Cp("ABC"), W("_")>>), G("(\"q\")", "(“q”)"), G("{\"q\"}", "{“q”}"), G("[\"q r\"]", "[“q r”]"), G("\"a\"-b", "“a”-b"), G("\"a\", \"b\"", "“a”, “b”"), G("\"a\"?", "“a”?"), G("2\"x3\"", "2”×3”")}
Places(m) ==
  CASE m \in {"quotes", "signs", "caps", "plain", "more"} -> {<<n>> : n \in Units(m)} \cup UNION {
         {<<W("x"), n, W("y")>>, <<n, W("y")>>, <<W("x"), n>>, <<W("x"), NL, n, NL, W("y")>>, <<W("x"), After(n, ","), W("y")>>, <<W("x"), After(n, ".")>>, <<n, n>>} : n \in Units(m)}
    [] m = "in" -> UNION {In(n) : n \in UNION {Units("quotes"), Units("signs"), Units("caps"), Plain, Units("more")} \ Closing}
    [] m = "tight" -> UNION {Tight(n) : n \in UNION {Units("quotes"), Units("signs"), Units("caps"), Plain \ {W("5%"), W("+/-")}}}
    [] m = "brackets" -> UNION {InBrackets(n) : n \in UNION {Units("quotes"), Units("caps"), Dots, Dashes, Sizes, Ands} \ {G("--", "—")}}
    [] m = "pairs" -> {<<W("x"), u[1], u[2], W("y")>> : u \in Few \X Few} \cup {<<u[1], W("y"), u[2]>> : u \in Few \X Few}
    [] m = "qpunct" -> QPunct
    [] m = "hosts" -> {<<W("x"), n, W("y")>> : n \in Few}
    [] m = "modes" -> {<<W("x"), n, W("y")>> : n \in UNION {Units("quotes"), Units("signs"), Units("caps"), Plain, Units("more")}}
Blks(m) == IF m = "hosts" THEN Hosted(Places(m), HostKinds) ELSE {P(t) : t \in {x \in Places(m) : ProperAll(x)}}
ModeCfgs == {Cfg0, Restricted, Lite, LiteR, Xhtml, [Cfg0 EXCEPT !.block_tags = FALSE], [Restricted EXCEPT !.block_tags = FALSE]}
Init == DocInit(IF Model = "modes" THEN ModeCfgs ELSE BothModes)
Next == Emit /\ Len(doc) < Depth /\ \E b \in Blks(Model) : Write(b)
InitR == DocInit(BothModes)
All == UNION {Units("quotes"), Units("signs"), Units("caps"), Plain, Units("more")} \ {W("2x_"), J(<<Cp("ABC"), W("_")>>), W("-x"), G("a -b", "a -b"), G("'a'-b", "‘a’-b"), G("\"a\"-b", "“a”-b")}
RECURSIVE RandUnits(_)
RandUnits(n) == IF n = 0 THEN << >> ELSE <<RE(All)>> \o (IF RE(1..5) = 1 THEN <<NL>> ELSE << >>) \o RandUnits(n - 1)
NextR == \/ WalkEnd(Depth)
         \/ /\ Len(doc) < Depth
            /\ WriteHosted(HostKinds, RandUnits(IF doc = << >> THEN RE(1..6) ELSE RE(1..6)) \o <<W("end")>>)
=============================================================================
