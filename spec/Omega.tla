------------------------------- MODULE Omega --------------------------------
(* The simulation master: a list of scenes of which one is current, one more *)
(* scene to swap with, saved copies in named memory slots, the name used by  *)
(* reload, and the Python variable of a labelled engine.  The content of a   *)
(* scene is abstracted to a number: 0 is a new scene; content k has k bodies,*)
(* k steps made, k materials and so on.                                      *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxScenes, MaxC, Slots, Export
VARIABLES scenes, cur,   \* contents; index (from 0) of the current one
          another,       \* content of the scene to swap with
          slots,         \* saved contents, -1 = none
          file,          \* slot last saved to or loaded from, "" = none
          lab,           \* content whose engine the label refers to, -1 = none yet
          ok             \* did the last operation succeed
vars == <<scenes, cur, another, slots, file, lab, ok>>
S == [scenes |-> scenes, cur |-> cur, another |-> another, slots |-> slots, file |-> file, lab |-> lab]
Now == scenes[cur + 1]
Obs == [now |-> Now, cur |-> cur, ls |-> {s \in Slots : slots[s] >= 0}, file |-> file, lab |-> lab, ok |-> ok]
Emit(o) == IF Export THEN PrintT("@T " \o ToJson([s |-> S, o |-> o, t |-> S', obs |-> Obs'])) ELSE TRUE
Init == /\ scenes = <<0>> /\ cur = 0 /\ another = 0 /\ slots = [s \in Slots |-> -1] /\ file = "" /\ lab = -1 /\ ok = TRUE
        /\ (IF Export THEN PrintT("@I " \o ToJson([s |-> S, obs |-> Obs])) ELSE TRUE)
Put(c) == scenes' = [scenes EXCEPT ![cur + 1] = c]
LabOf(c) == lab' = IF c = 0 THEN lab ELSE c
\* one more body, material, step and so on in the current scene
Mod == Now < MaxC /\ Put(Now + 1) /\ lab' = Now + 1 /\ ok' = TRUE /\ UNCHANGED <<cur, another, slots, file>> /\ Emit([op |-> "mod"])
Save(s) == slots' = [slots EXCEPT ![s] = Now] /\ file' = s /\ ok' = TRUE /\ UNCHANGED <<scenes, cur, another, lab>> /\ Emit([op |-> "save", s |-> s])
DoLoad(s) == IF s \in Slots /\ slots[s] >= 0 THEN Put(slots[s]) /\ LabOf(slots[s]) /\ file' = s /\ ok' = TRUE ELSE ok' = FALSE /\ UNCHANGED <<scenes, lab, file>>
Load(s) == DoLoad(s) /\ UNCHANGED <<cur, another, slots>> /\ Emit([op |-> "load", s |-> s])
Reload == DoLoad(file) /\ UNCHANGED <<cur, another, slots>> /\ Emit([op |-> "reload"])
\* through a string: the same as saving and loading
Str(s) == slots' = [slots EXCEPT ![s] = Now] /\ file' = s /\ LabOf(Now) /\ ok' = TRUE /\ UNCHANGED <<scenes, cur, another>> /\ Emit([op |-> "str", s |-> s])
Add == Len(scenes) < MaxScenes /\ scenes' = Append(scenes, 0) /\ ok' = TRUE /\ UNCHANGED <<cur, another, slots, file, lab>> /\ Emit([op |-> "add", n |-> Len(scenes)])
\* a scene that does not exist: nothing happens
To(i) == cur' = (IF i \in 0..Len(scenes) - 1 THEN i ELSE cur) /\ ok' = TRUE /\ UNCHANGED <<scenes, another, slots, file, lab>> /\ Emit([op |-> "to", i |-> i])
Swap == Put(another) /\ another' = Now /\ ok' = TRUE /\ UNCHANGED <<cur, slots, file, lab>> /\ Emit([op |-> "swap"])
ResetThis == Put(0) /\ ok' = TRUE /\ UNCHANGED <<cur, another, slots, file, lab>> /\ Emit([op |-> "resetThis"])
ResetAll == scenes' = <<0>> /\ cur' = 0 /\ ok' = TRUE /\ UNCHANGED <<another, slots, file, lab>> /\ Emit([op |-> "resetAll"])
Reset == scenes' = <<0>> /\ cur' = 0 /\ another' = 0 /\ file' = "" /\ ok' = TRUE /\ UNCHANGED <<slots, lab>> /\ Emit([op |-> "reset"])
\* assigning a scene drops all others
Assign == scenes' = <<Now>> /\ cur' = 0 /\ another' = 0 /\ file' = "" /\ ok' = TRUE /\ UNCHANGED <<slots, lab>> /\ Emit([op |-> "assign"])
Next == Mod \/ Reload \/ Add \/ Swap \/ ResetThis \/ ResetAll \/ Reset \/ Assign
        \/ (\E s \in Slots : Save(s) \/ Load(s) \/ Str(s)) \/ (\E i \in -1..MaxScenes : To(i))
Spec == Init /\ [][Next]_vars
Ok == cur \in 0..Len(scenes) - 1 /\ (file # "" => slots[file] >= 0)
\* an operation changes at most one scene unless it drops scenes, and slots change only by saving
OneScene == [][(Len(scenes') = Len(scenes) /\ cur' = cur /\ Len(scenes) > 1) => (\A i \in DOMAIN scenes : i # cur + 1 => scenes'[i] = scenes[i])]_vars
SlotsKept == [][\A s \in Slots : slots'[s] # slots[s] => slots'[s] = Now /\ file' = s]_vars
=============================================================================
