---------------------------- MODULE Resolver ----------------------------
(* How an import specifier is resolved, as documented (TypeScript's module   *)
(* resolution with package.json "style"): over every file tree.              *)
(*                                                                           *)
(* A path is the sequence of its names from the root. A tree is a function   *)
(* from paths to nodes [k |-> "file" | "dir", pkg |-> "no" | "bad" | "none"  *)
(* | "style", style |-> <<names>>]; pkg describes the contents of a file     *)
(* called package.json: not one, malformed, without or with a style          *)
(* attribute. A specifier is its text split at the slashes.                  *)
EXTENDS Integers, Sequences, FiniteSets

Fail == [ok |-> FALSE, p |-> <<>>]
Found(p) == [ok |-> TRUE, p |-> p]

(* Removes ".", ".." and empty names. *)
Norm(names) ==
  LET RECURSIVE go(_, _)
      go(i, acc) ==
        IF i > Len(names) THEN acc
        ELSE IF names[i] \in {"", "."} THEN go(i + 1, acc)
        ELSE IF names[i] = ".." THEN go(i + 1, IF acc = <<>> THEN acc ELSE SubSeq(acc, 1, Len(acc) - 1))
        ELSE go(i + 1, Append(acc, names[i]))
  IN go(1, <<>>)

WithExtension(p) == IF p = <<>> THEN <<".css">> ELSE [p EXCEPT ![Len(p)] = @ \o ".css"]

KindOf(fs, p) == IF p = <<>> THEN "dir" ELSE IF p \in DOMAIN fs THEN fs[p].k ELSE "absent"

(* Parents of nodes are directories. *)
WellFormed(fs) == \A p \in DOMAIN fs : Len(p) > 0 /\ KindOf(fs, SubSeq(p, 1, Len(p) - 1)) = "dir"

AsDirectory(fs, p) ==
  LET pkg == Append(p, "package.json")
      index == Append(p, "index.css")
      main == Norm(p \o fs[pkg].style)
  IN IF KindOf(fs, pkg) = "file"
     THEN IF fs[pkg].pkg = "style" /\ KindOf(fs, main) = "file" THEN Found(main) ELSE Fail
     ELSE IF KindOf(fs, index) = "file" THEN Found(index) ELSE Fail

(* What a path stands for. *)
At(fs, p) ==
  CASE KindOf(fs, p) = "file" -> Found(p)
    [] KindOf(fs, p) = "dir" -> AsDirectory(fs, p)
    [] OTHER -> IF KindOf(fs, WithExtension(p)) = "file" THEN Found(WithExtension(p)) ELSE Fail

IsRelative(spec) == Len(spec) > 1 /\ spec[1] \in {".", "..", ""}

NoBase == <<"?">>
Level(spec, from, k) == Norm(SubSeq(from, 1, k) \o <<"node_modules">> \o spec)

(* The declarative definition: R01 and R02. *)
Resolved(fs, spec, from, base) ==
  IF IsRelative(spec) THEN At(fs, Norm(from \o spec))
  ELSE IF base # NoBase /\ At(fs, Norm(base \o spec)).ok THEN At(fs, Norm(base \o spec))
  ELSE LET good == {k \in 0..Len(from) : At(fs, Level(spec, from, k)).ok}
       IN IF good = {} THEN Fail
          ELSE At(fs, Level(spec, from, CHOOSE k \in good : \A j \in good : j <= k))

(* Nothing but absent entries, directories in the place of files and         *)
(* packages without a stylesheet at p; nothing malformed, and no file in the *)
(* place of a directory.                                                     *)
Blocked(fs, p) == \E k \in 1..Len(p) - 1 : KindOf(fs, SubSeq(p, 1, k)) = "file"
Missing(fs, p) ==
  LET pkg == Append(p, "package.json")
  IN CASE KindOf(fs, p) = "absent" -> ~Blocked(fs, p)
       [] KindOf(fs, p) = "dir" -> KindOf(fs, pkg) # "file" \/ fs[pkg].pkg = "none"
                                   \/ (fs[pkg].pkg = "style" /\ ~Blocked(fs, Norm(p \o fs[pkg].style)))
       [] OTHER -> FALSE

(* R03: when the error is the one for specifiers that nothing stands for. *)
NotFound(fs, spec, from, base) ==
  /\ ~Resolved(fs, spec, from, base).ok
  /\ IF IsRelative(spec) THEN Missing(fs, Norm(from \o spec))
     ELSE /\ base = NoBase \/ Missing(fs, Norm(base \o spec))
          /\ \A k \in 0..Len(from) : Missing(fs, Level(spec, from, k))

(* R03: a result is an existing file. *)
Sound(fs, r) == r.ok => KindOf(fs, r.p) = "file"
=============================================================================
