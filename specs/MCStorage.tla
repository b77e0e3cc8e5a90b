---- MODULE MCStorage ----
(* Memory and file under histories of save (with options), load and change. *)
EXTENDS Num, Json
CONSTANT L
Opts == {"plain", "zip", "enc", "pack", "zip+enc"}
VARIABLES mem, file, gen, hist
vars == <<mem, file, gen, hist>>
\* the state of a variable: its generation of values, width and stored form
Init == mem = [g |-> 0, w |-> 64] /\ file = <<>> /\ gen = 0 /\ hist = <<>>
Store(m) == [g |-> m.g, w |-> 32]
Save(o) == file' = <<Store(mem), o>> /\ UNCHANGED <<mem, gen>> /\ hist' = Append(hist, "save." \o o)
Load == file # <<>> /\ mem' = file[1] /\ UNCHANGED <<file, gen>> /\ hist' = Append(hist, "load")
Change == gen' = gen + 1 /\ mem' = [g |-> gen + 1, w |-> 64] /\ UNCHANGED file /\ hist' = Append(hist, "change")
Next == Len(hist) < L /\ (Load \/ Change \/ \E o \in Opts : Save(o))
\* what is on file is some earlier memory state, independent of the options used
FileSound == file # <<>> => file[1].g <= gen /\ file[1].w = 32
SaveNoEffect == [][file' # file => mem' = mem]_vars
LoadIdem == [][Store(Store(mem)) = Store(mem)]_vars
Useful(h) == /\ Len(h) = L /\ h[L] = "load" /\ \A i \in 1..(L - 1) : h[i] = "load" => h[i + 1] # "load"
             /\ h[1] # "change"
\* a file is loaded, the dataset changed, and saved again
Again(h) == \E i \in 2..(Len(h) - 3) : h[i] = "load" /\ h[i + 1] = "change" /\ h[i + 2] # "change"
Export == Useful(hist) => PrintT("CASE " \o ToJson([again |-> Again(hist), h |-> hist]))
====
