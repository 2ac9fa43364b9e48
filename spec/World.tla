-------------------------------- MODULE World --------------------------------
(* What a document can see of its surroundings.  The world x has             *)
(*   dirs:  the directories to search, in order                              *)
(*   files: readable files, path -> [text, ok, tree]                         *)
(*   vars:  environment variables                                            *)
(*   docs:  <<[lang, text, ok, doc]...>>   structured data, by its text      *)
(*   md:    <<[text, html, ok, lang, doc]...>>                               *)
(*   paths: <<[path, parts, kind, age, born]...>> what is on disk, to glob   *)
EXTENDS Glob

InDir(dir, path) == IF StartsWith(path, "/") \/ dir = "" THEN path
                    ELSE IF EndsWith(dir, "/") THEN dir \o path ELSE dir \o "/" \o path
FirstDir(x, Has(_)) == LET is == {i \in 1..Len(x.dirs) : Has(x.dirs[i])} IN
                       IF is = {} THEN "" ELSE x.dirs[CHOOSE i \in is : \A j \in is : i <= j]
\* Source: the name as given, or with .sex added, in the first directory that has either.
FindSource(x, path) ==
  LET Has(d) == InDir(d, path) \in DOMAIN x.files \/ (InDir(d, path) \o ".sex") \in DOMAIN x.files
      is == {i \in 1..Len(x.dirs) : Has(x.dirs[i])}
  IN IF is = {} THEN <<>>
     ELSE LET f == InDir(FirstDir(x, Has), path)
          IN <<x.files[IF f \in DOMAIN x.files THEN f ELSE f \o ".sex"]>>
FindText(x, path) ==
  LET Has(d) == InDir(d, path) \in DOMAIN x.files
      is == {i \in 1..Len(x.dirs) : Has(x.dirs[i])}
  IN IF is = {} THEN <<>> ELSE <<x.files[InDir(FirstDir(x, Has), path)].text>>

NoDoc == [ok |-> FALSE, doc |-> [y |-> "none"], lang |-> "yaml"]
Document(x, lang, text) ==
  LET is == {i \in 1..Len(x.docs) : x.docs[i].lang = lang /\ x.docs[i].text = text} IN
  IF is = {} THEN NoDoc ELSE x.docs[CHOOSE i \in is : TRUE]
MarkdownOf(x, text) ==
  LET is == {i \in 1..Len(x.md) : x.md[i].text = text} IN
  IF is = {} THEN [html |-> "", front |-> NoDoc] ELSE x.md[CHOOSE i \in is : TRUE]

=============================================================================
