------------------------------ MODULE Version -------------------------------
(***************************************************************************)
(* The version of a source tree.  The tree is a git working copy whose     *)
(* history grows commit by commit (merges and checkouts of older commits   *)
(* included), whose commits get tags, and whose files are edited, staged,  *)
(* added without being tracked, and restored.  The version of every state  *)
(* is the nearest tag (the one that leaves the fewest commits of the       *)
(* history uncovered), followed, unless the tree is exactly that commit,   *)
(* by distance, commit and a mark for uncommitted changes.                 *)
(* Commits are numbered in the order they are made.                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, TLC, Json
CONSTANTS Names, MaxLen, MaxCommits, Emitting
VARIABLES par, head, tags, tree, hist
vars == <<par, head, tags, tree, hist>>

Commits == 1..Len(par)
RECURSIVE Anc(_)
Anc(c) == {c} \cup UNION {Anc(p) : p \in par[c]}
Past == IF head = 0 THEN {} ELSE Anc(head)
Reachable == {t \in DOMAIN tags : tags[t] \in Past}
Distance(t) == Cardinality(Past \ Anc(tags[t]))
Nearest == {t \in Reachable : \A u \in Reachable : Distance(t) <= Distance(u)}
Dirty == tree \cap {"edited", "staged"} # {}
Dist == IF Nearest = {} THEN Cardinality(Past) ELSE Distance(CHOOSE t \in Nearest : TRUE)

(* ---- how the pieces are written in each style, after the documentation; *)
(* <tag>, <dist> and <hex> stand for the tag, the distance, the commit     *)
Sep(plus) == IF plus THEN "." ELSE "+"
If(b, s) == IF b THEN s ELSE <<>>
Render(style, tagged, plus, dist, dirty) ==
  CASE style = "pep440" ->
         (IF tagged THEN <<"<tag>">> \o If(dist > 0 \/ dirty, <<Sep(plus), "<dist>", ".g", "<hex>">>)
          ELSE <<"0+untagged.", "<dist>", ".g", "<hex>">>) \o If(dirty, <<".dirty">>)
    [] style = "pep440-pre" ->
         IF tagged THEN <<"<tag>">> \o If(dist > 0, <<".post.dev", "<dist>">>) ELSE <<"0.post.dev", "<dist>">>
    [] style = "pep440-post" ->
         IF tagged THEN <<"<tag>">> \o If(dist > 0 \/ dirty, <<".post", "<dist>">> \o If(dirty, <<".dev0">>) \o <<Sep(plus), "g", "<hex>">>)
         ELSE <<"0.post", "<dist>">> \o If(dirty, <<".dev0">>) \o <<"+g", "<hex>">>
    [] style = "pep440-old" ->
         IF tagged THEN <<"<tag>">> \o If(dist > 0 \/ dirty, <<".post", "<dist>">> \o If(dirty, <<".dev0">>))
         ELSE <<"0.post", "<dist>">> \o If(dirty, <<".dev0">>)
    [] style = "git-describe" ->
         (IF tagged THEN <<"<tag>">> \o If(dist > 0, <<"-", "<dist>", "-g", "<hex>">>) ELSE <<"<hex>">>) \o If(dirty, <<"-dirty">>)
    [] style = "git-describe-long" ->
         (IF tagged THEN <<"<tag>", "-", "<dist>", "-g", "<hex>">> ELSE <<"<hex>">>) \o If(dirty, <<"-dirty">>)
    [] style \in {"default", ""} ->
         (IF tagged THEN <<"<tag>">> \o If(dist > 0 \/ dirty, <<Sep(plus), "<dist>", ".g", "<hex>">>)
          ELSE <<"0+untagged.", "<dist>", ".g", "<hex>">>) \o If(dirty, <<".dirty">>)
Styles == {"pep440", "pep440-pre", "pep440-post", "pep440-old", "git-describe", "git-describe-long", "default", ""}

(* ---- histories -------------------------------------------------------- *)
Log(op, arg) == hist' = Append(hist, [op |-> op, arg |-> arg])
Room == Len(hist) < MaxLen
Init == par = <<>> /\ head = 0 /\ tags = <<>> /\ tree = {} /\ hist = <<>>
Grow(parents) == /\ par' = Append(par, parents) /\ head' = Len(par) + 1
Commit == /\ Room /\ Len(par) < MaxCommits /\ Grow(IF head = 0 THEN {} ELSE {head})
          /\ tree' = tree \ {"edited", "staged"} /\ UNCHANGED tags /\ Log("commit", 0)
Merge(c) == /\ Room /\ head # 0 /\ Len(par) < MaxCommits /\ c \notin Past /\ head \notin Anc(c) /\ ~Dirty /\ Grow({head, c})
            /\ UNCHANGED <<tags, tree>> /\ Log("merge", c)
Tag(t) == /\ Room /\ head # 0 /\ t \notin DOMAIN tags /\ (\A u \in DOMAIN tags : tags[u] # head)
          /\ tags' = tags @@ (t :> head) /\ UNCHANGED <<par, head, tree>> /\ Log("tag", t)
Annotate(t) == /\ Room /\ head # 0 /\ t \notin DOMAIN tags /\ (\A u \in DOMAIN tags : tags[u] # head)
               /\ tags' = tags @@ (t :> head) /\ UNCHANGED <<par, head, tree>> /\ Log("annotate", t)
Untag(t) == /\ Room /\ t \in DOMAIN tags /\ tags' = [u \in DOMAIN tags \ {t} |-> tags[u]]
            /\ UNCHANGED <<par, head, tree>> /\ Log("untag", t)
Touch(k) == /\ Room /\ head # 0 /\ k \notin tree /\ tree' = tree \cup {k} /\ UNCHANGED <<par, head, tags>> /\ Log("touch", k)
Restore == /\ Room /\ Dirty /\ tree' = tree \ {"edited", "staged"} /\ UNCHANGED <<par, head, tags>> /\ Log("restore", 0)
Checkout(c) == /\ Room /\ c # head /\ ~Dirty /\ head' = c /\ UNCHANGED <<par, tags, tree>> /\ Log("checkout", c)
Next == Commit \/ (\E c \in Commits : Merge(c) \/ Checkout(c)) \/ (\E t \in Names : Tag(t) \/ Annotate(t) \/ Untag(t))
        \/ (\E k \in {"edited", "staged", "new"} : Touch(k)) \/ Restore
(* branches and what a tag on one of them means to the others *)
NextBranch == Commit \/ (\E c \in Commits : Merge(c) \/ Checkout(c)) \/ (\E t \in Names : Tag(t))
Spec == Init /\ [][Next]_vars

(* ---- properties ------------------------------------------------------- *)
TypeOK == /\ head \in 0..Len(par) /\ \A c \in Commits : \A p \in par[c] : p < c
          /\ \A t \in DOMAIN tags : tags[t] \in Commits
V(s) == Render(s, Nearest # {}, FALSE, Dist, Dirty)
Is(s, x) == V(s) = x
ExactTag == (Nearest # {} /\ Dist = 0 /\ ~Dirty) <=> Is("pep440", <<"<tag>">>)
DirtyShows == head # 0 => ((V("pep440")[Len(V("pep440"))] = ".dirty") <=> Dirty)
AtTag == (\E t \in DOMAIN tags : tags[t] = head) => Dist = 0
DistanceBound == Dist <= Cardinality(Past)
CommitGoesOn == [][(hist' # hist /\ hist'[Len(hist')].op = "commit") => (Nearest' = Nearest /\ Dist' = Dist + 1 /\ ~Dirty')]_vars
EditsKeepTag == [][(hist' # hist /\ hist'[Len(hist')].op \in {"touch", "restore"}) => (Nearest' = Nearest /\ Dist' = Dist)]_vars
UntrackedIsClean == [][(hist' # hist /\ hist'[Len(hist')].op = "touch" /\ hist'[Len(hist')].arg = "new") => (Dirty' = Dirty)]_vars

State == [near |-> Nearest, dist |-> Dist, dirty |-> Dirty, head |-> head, version |-> V("pep440")]
Emit == Emitting => PrintT("@@" \o ToJson([hist |-> hist, state |-> State, tags |-> {<<t, tags[t]>> : t \in DOMAIN tags}]))

(* ---- the styles, exhaustively ----------------------------------------- *)
SInit == par = <<>> /\ head = 0 /\ tags = <<>> /\ tree = {}
         /\ hist \in {[style |-> s, tagged |-> t, plus |-> p, dist |-> d, dirty |-> b] :
                       s \in Styles, t \in BOOLEAN, p \in BOOLEAN, d \in {0, 1, 2, 17}, b \in BOOLEAN}
SNext == UNCHANGED vars
SEmit == PrintT("@@" \o ToJson([c |-> hist, out |-> Render(hist.style, hist.tagged, hist.plus, hist.dist, hist.dirty)]))
(* styles that mark uncommitted changes do so in every state *)
SMarks == hist.style \in {"pep440", "git-describe", "git-describe-long", "pep440-post", "pep440-old"} =>
   Render(hist.style, hist.tagged, hist.plus, hist.dist, TRUE) # Render(hist.style, hist.tagged, hist.plus, hist.dist, FALSE)
=============================================================================
