------------------------------- MODULE CssGen -------------------------------
(***************************************************************************)
(* Small-scope enumeration.  The machine derives sentences of a grammar,   *)
(* leftmost nonterminal first; every terminal state is one test document,  *)
(* which is replayed into the compiler and judged by CssCheck.  The        *)
(* grammar and the bound come from the environment (KIND, DEPTH): within   *)
(* them, TLC visits every document there is.                               *)
(*                                                                         *)
(* A grammar maps nonterminals to sequences of productions.  A nonterminal *)
(* at depth 0 only has its productions without nonterminals.  Terminals    *)
(* are texts; the harness spells LF, CR, FF and the like.                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, IOUtils

Kind  == IOEnv.KIND
Depth == atoi(IOEnv.DEPTH)

T(s) == <<s>>
(* one-terminal productions *)
Ts(ss) == [i \in 1..Len(ss) |-> <<ss[i]>>]

(* --- every calc() over few operands ------------------------------------ *)
Calc ==
  [ S |-> << <<"a{width:calc(", "E", ")}">> >>,
    E |-> << <<"N">>, <<"E", "O", "F">> >>,
    F |-> << <<"N">>, <<"(", "E", ")">>, <<"calc(", "E", ")">>, <<"calc(1px,2px)">>, <<"min(3px,", "E", ")">> >>,
    N |-> Ts(<<"1px", "2px", "3em", "10%", "4", "0", "66000", "7e4px">>),
    O |-> Ts(<<" + ", " - ", "*", " / ">>) ]

(* --- every one- and two-sided range feature ---------------------------- *)
Range ==
  [ S |-> << <<"@media ", "Q", "{a{b:c}}">> >>,
    Q |-> << <<"F">>, <<"screen and ", "F">>, <<"F", " and ", "F">>, <<"F", " , ", "F">> >>,
    F |-> << <<"(", "P", "O", "V", ")">>, <<"(", "V", "O", "P", ")">>,
             <<"(", "V", " < ", "P", "<", "V", ")">>, <<"(", "V", "<=", "P", "<=", "V", ")">>,
             <<"(", "V", ">", "P", " > ", "V", ")">>, <<"(", "V", ">=", "P", ">=", "V", ")">>,
             <<"(min-width: 1px)">> >>,
    P |-> Ts(<<"width", "resolution">>),
    O |-> Ts(<<"<", " <= ", ">", ">=">>),
    V |-> Ts(<<"600px", "0em", "1.5dppx", "-.25px", "+3", "37.49845em", "0">>) ]

(* --- :any-link at every place ------------------------------------------ *)
AnyLink ==
  [ S |-> << <<"L", "{b:c}">>, <<"@media print{", "L", "{b:c}}">>, <<"@supports (a:b){", "L", "{b:c}}">> >>,
    L |-> << <<"X">>, <<"X", ",", "X">> >>,
    X |-> << <<"C">>, <<"C", " ", "X">>, <<"C", " > ", "X">> >>,
    C |-> << <<"a">>, <<":any-link">>, <<"a:any-link">>, <<":any-link:hover">>, <<":any-link::before">>, <<".any-link">>,
             <<":not(", "L", ")">>, <<"b:is(", "L", "):focus">>, <<"::any-link">>, <<":any-link:any-link">>, <<"[any-link]">> >> ]

(* --- every small arrangement of definitions and uses ------------------- *)
Vars ==
  [ S |-> << <<"R", "R", "U">>, <<"U", "R", "R">>, <<"R", "U", "R">> >>,
    R |-> << <<":root{", "D", "}">>, <<":root{", "D", ";", "D", "}">>, <<".x{", "D", "}">>, <<":root{c:d;", "D", "}">>,
             <<"@media print{:root{", "D", "}}">>, <<":root,b{", "D", "}">> >>,
    D |-> << <<"--a:1px">>, <<"--a:var(--b)">>, <<"--b:2px 3px">>, <<"--b:x,y">>, <<"--b:var(--c,4px)">>, <<"--c:f(var(--d))">> >>,
    U |-> << <<"p{q:", "V", "}">>, <<"@media print{p{q:", "V", "}}">>, <<"@keyframes k{to{q:", "V", "}}">>, <<"@page{q:", "V", "}">> >>,
    V |-> << <<"var(--a)">>, <<"f(", "V", ",1)">>, <<"var(--b,", "V", ")">>, <<"1 ", "V", "!important">>, <<"var(--z,", "V", ")">>,
             <<"var(--z)">>, <<"calc(2*var(--a))">>, <<"var( --c )">> >> ]

(* --- custom media definitions and uses --------------------------------- *)
CMedia ==
  [ S |-> << <<"D", "D", "U">>, <<"U", "D", "D">>, <<"D", "U", "D">> >>,
    D |-> << <<"@custom-media --a (color);">>, <<"@custom-media --a (--b);">>, <<"@custom-media --b screen and (width < 9px);">>,
             <<"@custom-media --b (--c) and (--d);">>, <<"@custom-media --c (1px <= width <= 2px);">>, <<"x{y:z}">> >>,
    U |-> << <<"@media ", "Q", "{a{b:c}}">>, <<"@media print{@media ", "Q", "{a{b:c}}}">>, <<"@supports (a:b){@media ", "Q", "{a{b:c}}}">> >>,
    Q |-> << <<"F">>, <<"Q", " , ", "F">>, <<"screen and ", "F">>, <<"F", " and ", "F">> >>,
    F |-> << <<"(--a)">>, <<"( --b )">>, <<"(--z)">>, <<"(hover)">>, <<"(--c)">> >> ]

(* --- every small selector ---------------------------------------------- *)
Sel ==
  [ S |-> << <<"L", "{b:c}">> >>,
    L |-> << <<"X">>, <<"X", ",", "X">> >>,
    X |-> << <<"C">>, <<"C", "K", "X">> >>,
    K |-> Ts(<<" ", ">", " + ", "~", " ~">>),
    C |-> << <<"B">>, <<"B", "P">>, <<"P">>, <<"P", "P">> >>,
    B |-> Ts(<<"a", "*", "svg|a", "*|*", "|a">>),
    P |-> << <<".b">>, <<"#c">>, <<":hover">>, <<"::before">>, <<"[d]">>, <<"[d=e]">>, <<"[ d |= \"e f\" i ]">>, <<"[d~='g' s]">>, <<"[d^=x]">>,
             <<"[d$=x]">>, <<"[d*=x]">>, <<":nth-child(", "A", ")">>, <<":NTH-LAST-OF-TYPE( ", "A", " )">>, <<":not(", "L", ")">>, <<":lang(en)">>, <<"::slotted(", "L", ")">> >>,
    A |-> Ts(<<"even", "ODD", "3", "-2", "n", "-n", "2n", "+3n", "n+1", "2n - 1", "-n+ 3", "-3n -4", "0n+0", "+n", "1n", "2n+", "N-2", "+n-1", "-n- 5">>) ]

(* --- every An+B -------------------------------------------------------- *)
Nth ==
  [ S |-> << <<"a:nth-child(", "W", "A", "W", "){b:c}">>, <<":Nth-Last-Of-Type(", "A", "):hover{b:c}">> >>,
    W |-> Ts(<<"", " ", "/**/", "LF">>),
    A |-> << <<"even">>, <<"ODD">>, <<"I">>, <<"C", "N">>, <<"C", "N", "B">> >>,
    I |-> Ts(<<"0", "3", "-2", "+10", "-0", "007">>),
    C |-> Ts(<<"", "+", "-", "1", "2", "-3", "+4", "0", "-1", "01", "10", "+10", "-20", "+1", "100">>),
    N |-> Ts(<<"n", "N">>),
    B |-> Ts(<<"+1", "-1", " + 2", "- 2", " +3", " -3", "+ 4", " - 0", "+10", "-10", "/**/+/**/1">>) ]

(* --- malformed declarations among good ones ---------------------------- *)
Bad ==
  [ S |-> << <<"a{", "I", "}", "Z">>, <<"a{", "I", "I", "}", "Z">>, <<"@media print{a{", "I", "}}", "Z">>, <<"@font-face{", "I", "}", "Z">>, <<"@keyframes k{to{", "I", "}}", "Z">> >>,
    Z |-> << <<"">>, <<"b{c:d}">> >>,
    I |-> << <<"B">>, <<"B", ";">>, <<"x:y;", "B", ";">>, <<"B", ";x:y;">>, <<"B", ";z:w">>, <<"B", ";;">> >>,
    B |-> << <<"c">>, <<"c d">>, <<"c:">>, <<"c:", "M">>, <<"c d:", "M">>, <<"c:1 ", "M", " 2">> >>,
    M |-> Ts(<<"(a;b)", "[a;b]", "f(a;b)", "f(a:b)", "=", "a:b", "\"}\"=", "url(x;y)=", "!x", "@q", "&", "$a", ")", "]", "f([;])", "(a{b;}c)", "f({:})", "\"\\\";\"=", "{a:b}", "a\\;b=", "%", "!x\\ ", "=\\}", "& \\20 ">>) ]

(* --- short token sequences in every context ---------------------------- *)
Junk ==
  [ S |-> << <<"W">>, <<"a{", "W">>, <<"a{b:", "W">>, <<"a{b:", "W", "}c{d:e}">>, <<"@media ", "W", "{a{b:c}}">>, <<"a:not(", "W">>, <<"@keyframes x{", "W">>,
             <<"a{b:calc(", "W", ")}">>, <<":root{--x:", "W", "}a{b:var(--x)}">>, <<"@import ", "W">>, <<"@custom-media --m ", "W", ";@media (--m){a{b:c}}">>,
             <<"a[", "W", "]{b:c}">>, <<"a:nth-child(", "W", "){b:c}">>, <<"@media (", "W", ") {a{b:c}}">>, <<"@x ", "W">> >>,
    W |-> << <<"J">>, <<"J", "W">> >>,
    J |-> Ts(<<"a", " ", "{", "}", ":", ";", "(", ")", "[", "]", "DQ", "'", "BS", "/*", "*/", "@media", "@import", "@keyframes", "@custom-media", "@font-face", "url(",
               ",", "1px", "<", "<=", ">", "!", "#", ".", "-", "+", "*", "/", "var(", "calc(", "--x", ":nth-child(", "LF", "CR", "%", "NUL", "XFF", "=", "and", "not", "1e", "<!--", "-->", "|", "~", "&", "$", "U+", "important", "any-link", "BOM", "@", "2n+", "from", "\\61 ">>) ]

(* --- constructs that a compiler may reject, but not change --------------- *)
Odd ==
  [ S |-> << <<"@media ", "Q", "{a{b:c}}">>, <<"@import 'x' ", "Q", ";a{b:c}">>, <<"@custom-media --m ", "Q", ";@media (--m){a{b:c}}">>,
             <<"a{b:c}", "L", "{d:e}">>, <<"@media print{", "L", "{d:e}}">>, <<"@keyframes ", "K", "">>, <<"a{", "D", "}f{g:h}">>, <<"R", "a{b:c}">> >>,
    Q |-> << <<"F">>, <<"not ", "F">>, <<"screen and ", "F">>, <<"F", " or (hover)">>, <<"(", "F", ")">>, <<"(not ", "F", ")">>, <<"(hover),", "F">>, <<"only ", "F">>,
             <<"F", "and (hover)">>, <<"print and", "F">> >>,
    F |-> << <<"(1px", "O", "width", "O", "2px)">>, <<"(", "width", "O", "V", ")">>, <<"(", "V", "O", "width", ")">>, <<"(width:", "V", ")">>,
             <<"(width ", "V", ")">>, <<"()">>, <<"(width)">>, <<"f(x)">>, <<"(a:b c)">>, <<"(a,b)">>, <<"(--m)">>, <<"print">>, <<"('x')">>, <<"(1px)">>, <<"supports(a:b)">>,
             <<"(", "V", ":1px)">> >>,
    O |-> Ts(<<"<", "<=", ">", ">=", "=", " < =", " >/**/= ", "==", "<>", ":", "><", " ">>),
    V |-> Ts(<<"1px", "16/9", "a", "-1", "calc(1px)", "1 px", "2">>),
    L |-> << <<"a[", "N", "E", "X", "]">>, <<"a:", "P">>, <<"a::", "P">>, <<"a", "C", "b">>, <<"a ", "C", " b">>, <<"C", "b">>, <<"b", "C">>, <<"a", "C", "C", "b">>, <<"N">>, <<"N", " c">> >>,
    N |-> Ts(<<"d", "n|d", "*|d", "|d", "'d'", "d e", "D", "d.e", "n|*", "n | d", "&", "1", "d|">>),
    E |-> Ts(<<"=", "^=", "^ =", "~ = ", "|/**/=", "==", "!=", "= ", " ", "", "*", "$ /**/=", ">=">>),
    X |-> Ts(<<"x", "'x'", "1", "x i", "'x'i", "'x' I", "x/**/s", "'x' q", "x y", "", "-x", "#x", "f()", "'x' 'y'", "x i s">>),
    C |-> Ts(<<">", "+", "~", "||", "|", ">>", " > > ", "/deep/", ",", ",,", "&", "*", ":", "^", "!", "<!--", " --> ", "%">>),
    P |-> Ts(<<"x", "x()", "not()", "is(a,,b)", "is(> a)", "lang('x')", "lang(x, y)", "nth-child(2n of .a)", "nth-child(2)", "nth-child(n of a, b)", "nth-child(a)", "nth-child(1.5n)",
               "nth-child(2 n)", "nth-child(2n+-1)", "part(a b)", "has(+ a)", "x (a)", " x", "x:", "hover()", "dir(rtl)", "host(a) b", "nth-col(2n)", "is(", "nth-child(+ n)", "not(a b)", "not( a , b )", "x( )" >>),
    K |-> Ts(<<"k{from,to{a:b}}", "'k'{0%{a:b}}", "k{}", "{to{a:b}}", "k l{to{a:b}}", "k{1{a:b}}", "k{to,{a:b}}", "k{to to{a:b}}", "k{5.5%,FROM{a:b}}", "k{-1%{a:b}}", "k{to{a{b:c}}}", "k{to{}to{a:b}}", "k;",
               "k{@x;to{a:b}}", "k{;to{a:b}}", "k{to{a:b};}", "k{cover 1%{a:b}}", "none{to{a:b}}", "k{50 %{a:b}}", "k{+5%,1e1%{a:b}}">>),
    D |-> << <<"b:", "T">>, <<"b:", "T", " ", "T">>, <<"--x:", "T">>, <<"b:f(", "T", ")">>, <<"b:x,", "T">>, <<"T", ":c">>, <<"b:", "T", "!important">>, <<"&:hover{", "b:", "T", "}">>, <<"b:[", "T", "]">> >>,
    T |-> Ts(<<"!", "! important", "!x", "{}", "{c:d}", "()", "(a)", "[a]", "[a", "a]", "@x", "@", "#", "#x", "<", "<=", "a=b", "/", "//", "/**/", "\\", "url( x )", "url(x y)", "url('x' y)", "U+4??", "u+1-2",
               "-->", "<!--", "1e3", "1e", "1.e3", "1.", ".", "..5", "+.5", "+-1", "- 1", "--", "-", "--x", "-1x", "%", "5%%", "*", "~", "|", "||", "^", "$", "&", "a:b", ":", "::", ",", ",,", "a;", "1px2px", "'a'\"b\"", "?", "=", "calc(1px  +2px)", "calc(1)2",
               "progid:x.y(z=1)", "var()", "var(--x,)", "f(,)", "f(a,,b)", "f(a b)", "alpha(o=5)", "\\31 x", "x\\", "\"\\\"\"" >>),
    R |-> << <<"@x;">>, <<"@x", "T", ";">>, <<"@x ", "T", "{}">>, <<"@charset ", "T", ";">>, <<"@namespace ", "T", ";">>, <<"@layer a", "T", ";">>, <<"@layer ", "T", "{a{b:c}}">>, <<"@supports (a:", "T", "){a{b:c}}">>,
             <<"@page ", "T", "{a:b}">>, <<"@page{@top-left{a:", "T", "}}">>, <<"@font-face{a:", "T", "}">>, <<"@import ", "T", ";">>, <<"@import url(", "T", ");">>, <<"@media ", "T", "{a{b:c}}">>, <<"@property --x{syntax:", "T", "}">>,
             <<"@container x (width", "T", "1px){a{b:c}}">>, <<"T", "{a:b}">>, <<"@font-feature-values F{@styleset{a:", "T", "}}">>, <<"@counter-style x{a:", "T", "}">>, <<"@scope (", "T", ") to (a){a{b:c}}">>, <<"@custom-selector :--x ", "T", ";">> >> ]

(* --- one or two slots of a document laid out in every way --------------- *)
(* o: whitespace and comments may be here; w: whitespace has to be here;   *)
(* c: only a comment may be here.                                          *)
Templates == <<
  <<"o", "a", "c", ".b", "w", "c", "o", ">", "o", "d", "o", ",", "o", "e", "o", "+", "o", "f", "o", "~", "o", "g", "c", "#h", "c", "::i", "o", "{", "o", "}", "o", "j", "{k:l}", "o">>,
  <<"a[", "o", "b", "o", "]", "w", "c[", "o", "d", "o", "^=", "o", "'e'", "w", "i", "o", "]{", "o", "f", "o", ":", "o", "g", "w", "1px", "o", ",", "o", "\"h\"", "o", "!", "o", "important", "o", ";", "o", ";", "o", "*j", "o", ":", "o", "k", "o", "}">>,
  <<"a:not(", "o", "b", "o", ",", "o", "y", "o", "):nth-child(", "o", "2n", "o", "+", "o", "1", "o", "):nth-of-type(", "o", "odd", "o", ")", "o", "{b:f(", "o", "1", "w", "2", "o", ",", "o", "g(", "o", ")", "o", ")", "w", "url(", "u", "x", "u", ")", "w", "#fff", "o", "/", "o", "3", "o", "}">>,
  <<"@charset \"utf-8\";", "o", "@import", "w", "\"./x\"", "o", ";", "o", "@media", "w", "screen", "w", "and", "w", "(", "o", "min-width", "o", ":", "o", "1px", "o", ")", "o", ",", "o", "not", "w", "print", "o", "{", "o", "a{b:c}", "o", "d{e:f}", "o", "}", "o">>,
  <<"@media", "w", "(", "o", "1px", "o", "<=", "o", "width", "o", "<=", "o", "2px", "o", ")", "w", "and", "w", "(", "o", "height", "o", ">", "o", "3px", "o", ")", "o", "{", "o", "a{b:c}", "o", "}", "o", "@page", "w", ":first", "o", "{", "o", "g", "o", ":", "o", "h", "o", "}">>,
  <<"@keyframes", "w", "k", "o", "{", "o", "from", "o", ",", "o", "50%", "o", "{", "o", "a", "o", ":", "o", "b", "o", ";", "o", "}", "o", "to", "o", "{c:d}", "o", "}", "o", "@font-face", "o", "{", "o", "src", "o", ":", "o", "url(", "u", "\"x\"", "u", ")", "o", "format(", "o", "'y'", "o", ")", "o", ",", "o", "local(z)", "o", "}">>,
  <<":root{", "o", "--a", "o", ":", "o", "1px", "o", ";", "--b:2px", "o", "}", "o", "@custom-media", "w", "--m", "w", "(", "o", "color", "o", ")", "o", ";", "o", "@media", "w", "(", "o", "--m", "o", ")", "o", "{a{b:var(", "o", "--a", "o", ",", "o", "3", "o", ")", "w", "var(", "o", "--z", "o", ",", "o", "4", "o", ")", "o", "}}">>,
  <<"a{b:calc(", "o", "1px", "w", "+", "w", "2px", "o", "*", "o", "(", "o", "3", "w", "-", "w", "1", "o", ")", "o", "/", "o", "2", "o", ")", "o", ";c", "o", ":", "o", "min(", "o", "1px", "o", ",", "o", "2em", "o", ")", "o", "}", "o", "a:any-link", "c", ":hover", "o", "{d:e}", "o", "<!--", "o", "x{y:z}", "o", "-->", "o">> >>
Default(s) == IF s = "w" THEN " " ELSE IF s \in {"o", "c", "u"} THEN "" ELSE s
SlotNT(s) == CASE s = "w" -> "W" [] s = "o" -> "O" [] s = "u" -> "U" [] OTHER -> "C"
SlotsOf(t) == {i \in 1..Len(t) : t[i] \in {"o", "w", "c", "u"}}
SeqOf(set) == LET RECURSIVE go(_, _)
                  go(rem, acc) == IF rem = {} THEN acc ELSE LET x == CHOOSE x \in rem : TRUE IN go(rem \ {x}, Append(acc, x))
              IN go(set, <<>>)
Filled(k, free) == <<ToString(k), "=">> \o [i \in 1..Len(Templates[k]) |->
                      IF i \in free THEN SlotNT(Templates[k][i]) ELSE Default(Templates[k][i])]
LayoutS(pairs) == SeqOf(UNION {{Filled(k, {i, j}) : i \in SlotsOf(Templates[k]), j \in (IF pairs THEN SlotsOf(Templates[k]) ELSE {})}
                         \cup {Filled(k, {i}) : i \in SlotsOf(Templates[k])} : k \in 1..Len(Templates)})
LayoutG(pairs) ==
  [ S |-> LayoutS(pairs),
    O |-> Ts(<<"", " ", "LF", "CRLF", "FF", "/**/", "/*;}*/", " /*LF*/LF", "TAB", "  ", "/**//**/", "CRLFTAB", "/***/ /*/*/">>),
    W |-> Ts(<<" ", "LF", "CR", "CRLFTAB", "FF", " /**/", "/* \"'*/ ", "   ", "TAB">>),
    U |-> Ts(<<"", " ", "   ", "LF", "CRLFTAB", "FF">>),
    C |-> Ts(<<"", "/**/", "/* { */">>) ]

Grammar ==
  CASE Kind = "layout" -> LayoutG(FALSE) [] Kind = "layout2" -> LayoutG(TRUE)
    [] Kind = "calc" -> Calc [] Kind = "range" -> Range [] Kind = "anylink" -> AnyLink
    [] Kind = "vars" -> Vars [] Kind = "cmedia" -> CMedia [] Kind = "sel" -> Sel
    [] Kind = "bad" -> Bad [] Kind = "nth" -> Nth [] Kind = "junk" -> Junk [] Kind = "odd" -> Odd
NonTerms == DOMAIN Grammar
IsNT(s) == s \in NonTerms
Flatten(p) == \A i \in 1..Len(p) : ~IsNT(p[i])
(* How deep the productions of a nonterminal nest at least: one that is    *)
(* too deep for what is left of the depth is not chosen.                   *)
MaxOf(s) == IF s = {} THEN 0 ELSE CHOOSE x \in s : \A y \in s : y <= x
MinOf(s) == CHOOSE x \in s : \A y \in s : x <= y
Infinite == 1000
RECURSIVE MinDepth(_, _)
MinDepth(s, left) ==
  IF ~IsNT(s) THEN 0
  ELSE IF left = 0 THEN Infinite
  ELSE MinOf({ 1 + MaxOf({MinDepth(Grammar[s][i][j], left - 1) : j \in 1..Len(Grammar[s][i])}) : i \in 1..Len(Grammar[s])})
Need == [s \in NonTerms |-> MinDepth(s, 6)]
NeedOf(s) == IF IsNT(s) THEN Need[s] ELSE 0
(* recursion is what costs depth: each nested nonterminal has one less *)
Usable(p, d) == \A j \in 1..Len(p) : NeedOf(p[j]) <= d - 1

VARIABLES text, rest      \* derived so far; what is left to derive: <<symbol, depth>>
vars == <<text, rest>>

RECURSIVE Shift(_, _)
Shift(t, r) ==
  IF r = <<>> THEN [t |-> t, r |-> r]
  ELSE IF IsNT(r[1][1]) THEN [t |-> t, r |-> r]
  ELSE Shift(IF t = "" THEN r[1][1] ELSE t \o "`" \o r[1][1], Tail(r))

Init == text = "" /\ rest = << <<"S", Depth>> >>
Expand(p) ==
  LET d == rest[1][2]
      n == Shift(text, [j \in 1..Len(p) |-> <<p[j], d - 1>>] \o Tail(rest))
  IN /\ text' = n.t
     /\ rest' = n.r
     /\ n.r = <<>> => PrintT("G`" \o n.t)
Next ==
  /\ rest # <<>>
  /\ \E i \in 1..Len(Grammar[rest[1][1]]) :
       LET p == Grammar[rest[1][1]][i] IN Usable(p, rest[1][2]) /\ Expand(p)
Spec == Init /\ [][Next]_vars
=============================================================================
