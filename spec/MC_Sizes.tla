------------------------------ MODULE MC_Sizes ------------------------------
(***************************************************************************)
(* Images and their sizes.  The driver answers requests to SERVER: the     *)
(* path says which image (format and size) or which failure it sends.      *)
(***************************************************************************)
EXTENDS Lib
CONSTANTS Model, Depth
Abs(p) == U("http://SERVER" \o p, "http://SERVER" \o p, "http")
\* an image which can be read, and its size
Sized(p, w, h) == [u |-> "http://SERVER" \o p, h |-> "http://SERVER" \o p, s |-> "http", wh |-> <<w, h>>]
Readable == {Sized("/png/w13h7", "13", "7"), Sized("/png/w640h480.png", "640", "480"), Sized("/gif/w1h2", "1", "2"), Sized("/gif/w300h200.gif", "300", "200"),
             Sized("/jpg/w100h50", "100", "50"), Sized("/bmp/w31h32", "31", "32"),
             \* what is needed comes late, but within the first kilobyte
             Sized("/jpg700/w20h30", "20", "30"),
             \* ... or in small pieces
             Sized("/bits/png/w17h19", "17", "19"), Sized("/bits/jpg/w27h29", "27", "29"), Sized("/bits/bmp/w37h39", "37", "39"), Sized("/chunks/png/w47h49", "47", "49"), Sized("/chunks/gif/w57h59", "57", "59"),
             \* ... or from elsewhere
             Sized("/moved/png/w5h6", "5", "6"),
             Sized("/png/w8h9?a=1&b=2", "8", "9"), Sized("/query?i=png/w21h22&x=y", "21", "22"), Sized("/png/w3h4#f", "3", "4")}
Unreadable == {Abs("/missing"), Abs("/text"), Abs("/empty"), Abs("/cut"), Abs("/jpg3000/w20h30"), Abs("/close"), Abs("/loop"),
               U("http://127.0.0.1:1/x.png", "http://127.0.0.1:1/x.png", "http")}
Others == {pic, U("/png/w13h7", "/png/w13h7", ""), U("../png/w13h7", "../png/w13h7", ""), U("data:image/png,x", "data:image/png,x", "data"), js}
All == Readable \cup Unreadable \cup Others
Texts(m) ==
  CASE m = "one" -> {<<W("see"), Im("", << >>, u, "", hr), W("now")>> : u \in All, hr \in {NoUrl, ex}}
         \cup {<<Im(al, a, u, ti, NoUrl)>> : al \in {"", ">"}, a \in {<< >>, <<cls>>}, u \in {Sized("/gif/w1h2", "1", "2"), pic}, ti \in {"", "alt"}}
    [] m = "hosts" -> {<<W("see"), Im("", << >>, u, "", NoUrl), W("now")>> : u \in {Sized("/png/w13h7", "13", "7"), pic, Abs("/missing")}}
    [] m = "inlink" -> {<<Ln(<< >>, <<Im("", << >>, u, "", NoUrl)>>, "", ex)>> : u \in Readable \cup {pic}}
                       \cup {<<Sp("*", << >>, <<W("a"), Im("", << >>, u, "", NoUrl), W("b")>>)>> : u \in Readable \cup {pic}}
    [] m = "two" -> {<<Im("", << >>, u, "", NoUrl), W("and"), Im("", << >>, v, "", NoUrl)>> :
                       u, v \in {Sized("/png/w13h7", "13", "7"), Sized("/gif/w1h2", "1", "2"), Abs("/missing"), pic}}
Hosts(m) == IF m = "hosts" THEN HostKinds ELSE {"p"}
\* the address asked for the image
Asked == SelectSeq([i \in 1..Len(Html) |-> IF Html[i][1] = "v" /\ Html[i][2] = "img" /\ Has(cfg, "get_sizes") THEN Html[i][3]["src"] ELSE ""],
                   LAMBDA x : StartsWith(x, "http://SERVER"))
Sizes(c) == ("get_sizes" :> TRUE) @@ c
Cfgs == {Cfg0, Restricted, Sizes(Cfg0), Sizes(Restricted), Sizes(NoImages), Sizes(Xhtml), Sizes(Rel)}
EmitQ == doc = << >> \/ PrintT("@@" \o ToJson([c |-> cfg, s |-> DocSrc(doc), e |-> Html, q |-> Asked]))
Init == DocInit(Cfgs)
Next == EmitQ /\ Len(doc) < Depth /\ \E b \in Hosted(Texts(Model), Hosts(Model)) : Write(b)
=============================================================================
