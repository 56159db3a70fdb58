------------------------------- MODULE Files -------------------------------
(* Static files of the schedule viewer: what a request path names.           *)
(* A path is a sequence of segments, percent signs decoded.                  *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC
Root == "file"                       \* the files are below /file/
\* one step along a path: `.' and an empty segment stay, `..' goes up
Walk1(at, s) == CASE s \in {"", "."} -> at [] s = ".." -> IF at = <<>> THEN <<>> ELSE SubSeq(at, 1, Len(at) - 1) [] OTHER -> Append(at, s)
RECURSIVE Walk(_, _)
Walk(at, segs) == IF segs = <<>> THEN at ELSE Walk(Walk1(at, segs[1]), SubSeq(segs, 2, Len(segs)))
Resolve(segs) == Walk(<<>>, segs)
\* files: the names of the regular files directly in the directory
Named(files, segs) == LET p == Resolve(segs) IN IF Len(p) = 2 /\ p[1] = Root /\ p[2] \in files THEN p[2] ELSE ""
NameChars == {"a", "b", "c", "d", "e", "f", "g", "h", "i", "j", "k", "l", "m", "n", "o", "p", "q", "r", "s", "t", "u", "v", "w", "x", "y", "z",
              "0", "1", "2", "3", "4", "5", "6", "7", "8", "9", "_", "-"}
Dots(x) == {i \in 1..Len(x) : SubSeq(x, i, i) = "."}
Servable(x) == /\ Cardinality(Dots(x)) = 1 /\ \A i \in 1..Len(x) : i \in Dots(x) \/ SubSeq(x, i, i) \in NameChars
               /\ \A i \in Dots(x) : i > 1 /\ i < Len(x) /\ i - 1 <= 64 /\ Len(x) - i <= 64
Ext(x) == LET i == CHOOSE i \in Dots(x) : TRUE IN SubSeq(x, i + 1, Len(x))
Types(e) == CASE e = "css" -> {"text/css"} [] e = "png" -> {"image/png"} [] e \in {"html", "htm"} -> {"text/html"} [] e \in {"txt", "vbs"} -> {"text/plain"}
              [] e = "js" -> {"application/javascript", "application/x-javascript", "text/javascript"} [] e = "gif" -> {"image/gif"} [] OTHER -> {}
\* the path spelled plainly
Plain(files, segs) == Len(segs) = 2 /\ segs[1] = Root /\ segs[2] \in files /\ Servable(segs[2]) /\ Types(Ext(segs[2])) # {}
\* what may be answered: o = [status, body (the file with these bytes), type]
Denied(o) == o.status >= 400 /\ o.status < 600 /\ o.body = ""
ServedAs(o, x) == o.status = 200 /\ o.body = x /\ (Servable(x) /\ Types(Ext(x)) # {} => o.type \in Types(Ext(x)))
Answer(files, segs, raw, o) ==
  IF raw /\ Plain(files, segs) THEN ServedAs(o, segs[2])
  ELSE IF Named(files, segs) # "" THEN Denied(o) \/ ServedAs(o, Named(files, segs))
  ELSE Denied(o)
=============================================================================
