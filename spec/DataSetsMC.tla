----------------------------- MODULE DataSetsMC -----------------------------
(* Loaders sharing one local copy while the published file may change.       *)
EXTENDS DataSets, TLC, Json
CONSTANTS Loaders, MaxLoads, Versions
VARIABLES w, copy, published, loads, downloads, hist
vars == <<w, copy, published, loads, downloads, hist>>
Init == w = [i \in 1..Loaders |-> Idle] /\ copy = NoCopy /\ published = 1 /\ loads = 0 /\ downloads = 0 /\ hist = <<>>
Log(i, what) == hist' = Append(hist, [who |-> i, what |-> what])
Start(i) == /\ w[i].at \in {"idle", "done"} /\ loads < MaxLoads
            /\ w' = [w EXCEPT ![i] = Begin(w[i], copy)] /\ loads' = loads + 1 /\ Log(i, "start") /\ UNCHANGED <<copy, published, downloads>>
Download(i) == w[i].at = "download" /\ w' = [w EXCEPT ![i] = Fetch(w[i], published)] /\ downloads' = downloads + 1 /\ Log(i, "fetch") /\ UNCHANGED <<copy, published, loads>>
Store(i) == w[i].at = "store" /\ copy' = w[i].got /\ w' = [w EXCEPT ![i] = Finish(w[i])] /\ Log(i, "store") /\ UNCHANGED <<published, loads, downloads>>
Crash(i) == w[i].at \in {"download", "store"} /\ w' = [w EXCEPT ![i] = Fail(w[i])] /\ Log(i, IF w[i].at = "download" THEN "fail_download" ELSE "fail_store") /\ UNCHANGED <<copy, published, loads, downloads>>
Republish == published < Versions /\ published' = published + 1 /\ hist' = Append(hist, [who |-> 0, what |-> "republish"]) /\ UNCHANGED <<w, copy, loads, downloads>>
Next == Republish \/ \E i \in 1..Loaders : Start(i) \/ Download(i) \/ Store(i) \/ Crash(i)
Spec == Init /\ [][Next]_vars

\* a finished load returns one whole version, and the copy is one whole version or none
WholeResult == \A i \in 1..Loaders : w[i].at = "done" => w[i].result \in 1..published
WholeCopy == copy = NoCopy \/ copy \in 1..published
\* once there is a copy nobody who starts after it downloads
NoSecondDownload == [][\A i \in 1..Loaders : (copy # NoCopy /\ w[i].at # "download" /\ w'[i].at = "download") => FALSE]_vars
CopyStays == [][copy # NoCopy => copy' # NoCopy]_vars
\* a failed load leaves nothing behind
FailureLeavesCopy == [][\A i \in 1..Loaders : (w[i].at = "store" /\ w'[i].at = "idle") => copy' = copy]_vars
\* Part 1 on every small file
Ans == {0, 1, 2, Empty}
Tm == {0 - 1, 5, 9}
Rows == [answers : [1..2 -> Ans], times : {<<a, 5>> : a \in Tm}, ipc : {1, 2}]
PrepLaws ==
  hist = <<>> =>
    \A r \in Rows : LET p == Processed(<<r>>, {2}, 2, 8)
                        q == Processed(<<r, r>>, {2}, 2, 8)
                    IN /\ Len(q) = 2 * Len(p)
                       /\ Len(p) = 1 => /\ \A i \in 1..2 : (p[1][i] = Missed) <=> (r.answers[i] = 0)
                                        /\ r.answers[1] # 0 => p[1][1] = r.answers[1] - 1
                                        /\ r.answers[2] # 0 => p[1][2] + (r.answers[2] - 1) = 1
                                        /\ r.times[1] = 5
                       /\ (\A i \in 1..2 : r.answers[i] \in {Empty, 0}) => p = <<>>
View == <<w, copy, published, loads, downloads, hist>>
Done == \A i \in 1..Loaders : w[i].at \in {"idle", "done"}
Emit == (loads = MaxLoads /\ Done /\ (Loaders = 1 \/ Len(hist) % 5 = 0)) => PrintT("SCENARIO " \o ToJson([hist |-> hist]))
=============================================================================
