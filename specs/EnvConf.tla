-------------------------------- MODULE EnvConf ---------------------------------
(* Reading a configuration whose scalars name environment variables.                                            *)
EXTENDS Conf, Sequences

Word == {"A","B","C","D","E","F","G","H","I","J","K","L","M","N","O","P","Q","R","S","T","U","V","W","X","Y","Z",
         "a","b","c","d","e","f","g","h","i","j","k","l","m","n","o","p","q","r","s","t","u","v","w","x","y","z",
         "0","1","2","3","4","5","6","7","8","9","_"}
RECURSIVE Text(_)
Text(cs) == IF cs = <<>> THEN "" ELSE Head(cs) \o Text(Tail(cs))
(* length of the reference ${NAME} that starts at i, 0 when there is none *)
RECURSIVE WordEnd(_, _)
WordEnd(cs, i) == IF i <= Len(cs) /\ cs[i] \in Word THEN WordEnd(cs, i + 1) ELSE i
RefEnd(cs, i) == IF i + 3 <= Len(cs) /\ cs[i] = "$" /\ cs[i + 1] = "{"
                 THEN LET e == WordEnd(cs, i + 2) IN IF e > i + 2 /\ e <= Len(cs) /\ cs[e] = "}" THEN e ELSE 0
                 ELSE 0
(* env: records [name, value]; an unset variable stands for its name *)
Value(env, name) == IF \E k \in DOMAIN env : env[k].name = name THEN env[CHOOSE k \in DOMAIN env : env[k].name = name].value ELSE name
RECURSIVE ExpandFrom(_, _, _)
ExpandFrom(cs, i, env) ==
  IF i > Len(cs) THEN ""
  ELSE LET e == RefEnd(cs, i) IN
       IF e > 0 THEN Value(env, Text(SubSeq(cs, i + 2, e - 1))) \o ExpandFrom(cs, e + 1, env)
       ELSE cs[i] \o ExpandFrom(cs, i + 1, env)
Expand(s, env) == ExpandFrom(SChars(s), 1, env)
Refers(s) == LET cs == SChars(s) IN \E i \in DOMAIN cs : RefEnd(cs, i) > 0

(* a leaf: [path, style ("plain", "quoted", "tagged"), tag, text, native (what YAML alone reads)] *)
Leaf(l, env) == IF l.style = "tagged" \/ (l.style = "plain" /\ Refers(l.text)) THEN "str:" \o Expand(l.text, env) ELSE l.native
Refused(doc, tag) == \E k \in DOMAIN doc : doc[k].style = "tagged" /\ doc[k].tag # tag
PlainLeaf(l) == IF l.style = "plain" THEN l.native ELSE "str:" \o l.text
(* kind "env" reads through the package, "plain" is any other reading of YAML in the same process *)
EnvVerdict(e) ==
  LET tag == IF e.kind = "env" THEN e.tag ELSE "" IN
  IF Refused(e.doc, tag) THEN (IF e.err = "exc:ConstructorError" THEN {} ELSE {"accepted tag " \o e.err})
  ELSE IF e.err # "" THEN {"failed " \o e.err}
  ELSE IF Len(e.out) # Len(e.doc) THEN {"structure"}
  ELSE UNION {LET w == IF e.kind = "env" THEN Leaf(e.doc[k], e.env) ELSE PlainLeaf(e.doc[k]) IN
              IF e.out[k].path # e.doc[k].path THEN {"structure at " \o e.doc[k].path}
              ELSE IF e.out[k].value # w THEN {"value at " \o e.doc[k].path \o " got " \o e.out[k].value \o " expected " \o w} ELSE {} : k \in DOMAIN e.doc}
================================================================================
