--------------------------- MODULE TranslateTrace ---------------------------
(* Judges recorded translations: kind "direct" is one call, kind "check" is  *)
(* a whole check with and without translations.                              *)
EXTENDS Translate, Json, IOUtils
Recs == ndJsonDeserialize(IOEnv.RECORDS)
Stride == atoi(IOEnv.STRIDE)
VARIABLE pos

Named(lang, x) == { i \in 1..Len(lang) : lang[i].id = x }
Entry(lang, p) ==       \* the code is preferred to the symbol
  LET c == Named(lang, p.code) s == Named(lang, p.symbol) IN
  IF c # {} THEN {lang[CHOOSE i \in c : TRUE]} ELSE IF s # {} THEN {lang[CHOOSE i \in s : TRUE]} ELSE {}
LangOf(r, p) == LET i == CHOOSE i \in 1..Len(r.langs) : r.langs[i].file = p.file IN r.langs[i].lang
TmplOf(r, p) ==
  LET is == { i \in 1..Len(r.tmpls) : r.tmpls[i].code = p.code } IN
  IF is = {} THEN "" ELSE r.tmpls[CHOOSE i \in is : TRUE].t
NoText(p) == [ k \in DOMAIN p \ {"text"} |-> p[k] ]

Fails(r) ==
  IF r.k = "direct" THEN
    (IF ~r.ok THEN {"raised"}
     ELSE IF r.got \notin Texts(r.tmpl, r.text, r.t, r.ex) THEN {"text"} ELSE {})
  ELSE IF ~r.ok THEN {"raised"}
  ELSE IF Len(r.base) # Len(r.got) THEN {"problems"}
  ELSE (IF \E i \in 1..Len(r.got) : NoText(r.base[i]) # NoText(r.got[i]) THEN {"fields"} ELSE {})
   \cup { "text of " \o r.base[i].code : i \in { j \in 1..Len(r.got) :
            LET b == r.base[j] e == Entry(LangOf(r, b), b) IN
            IF e = {} THEN r.got[j].text # b.text
            ELSE LET x == CHOOSE y \in e : TRUE IN r.got[j].text \notin Texts(TmplOf(r, b), b.text, x.t, x.ex) } }

Init == pos \in 1..Stride /\ pos <= Len(Recs)
Judge(i) == LET f == Fails(Recs[i]) IN IF f = {} THEN TRUE ELSE PrintT("BAD " \o ToJson([i |-> i, fails |-> f]))
Next == Judge(pos) /\ pos + Stride <= Len(Recs) /\ pos' = pos + Stride
Done == pos + Stride > Len(Recs) /\ Judge(pos) /\ UNCHANGED pos
Spec == Init /\ [][Next \/ Done]_pos
=============================================================================
