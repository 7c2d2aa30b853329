------------------------------------------------------- MODULE Saves -------------------------------------------------------
(* Save-games: objects of the program (what they hold and which slot they were last saved to or loaded from) and slots on   *)
(* the disk. What is kept is opaque here: contents of games and worlds are values that are compared.                        *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
CONSTANT NSlots
VARIABLES games, slots
svars == <<games, slots>>

\* A slot: is there such a directory; the contents of the game in it; the name in its header; its worlds by name; other files.
\* info, dat and thumb tell if the files with these parts are there.
NoSlot == [there |-> FALSE, data |-> <<>>, hdr |-> <<>>, worlds |-> <<>>, info |-> FALSE, dat |-> FALSE, thumb |-> FALSE, extra |-> {}]
SInit == games = <<>> /\ slots = [s \in 1 .. NSlots |-> NoSlot]

New(o, contents) == games' = (o :> [at |-> 0, data |-> contents]) @@ games /\ UNCHANGED slots
SetTo(o, contents) == games' = [games EXCEPT ![o].data = contents] /\ UNCHANGED slots

\* Saving to the slot the game is at replaces its world in place; saving to another one takes along everything in the slot the
\* game is at (worlds visited before), and nothing that had been in the other slot.
Base(o, s) == LET a == games[o].at IN
  IF a # 0 /\ slots[a].there THEN slots[a] ELSE NoSlot
Save(o, s, name, kept, w) ==
  /\ slots' = [slots EXCEPT ![s] = [there |-> TRUE, data |-> kept, hdr |-> name, worlds |-> (name :> w) @@ Base(o, s).worlds, info |-> TRUE, dat |-> TRUE, thumb |-> TRUE,
                                    extra |-> Base(o, s).extra]]
  /\ games' = [games EXCEPT ![o].at = s]

\* Loading something that is no save-game fails, and the game stays at its slot. `half` is what it holds if only a part was there.
CanLoad(s) == slots[s].there /\ slots[s].info /\ slots[s].dat
Load(o, s, strip(_), half) ==
  /\ games' = IF CanLoad(s) THEN [games EXCEPT ![o] = [at |-> s, data |-> IF slots[s].thumb THEN slots[s].data ELSE strip(slots[s].data)]]
              ELSE IF slots[s].there /\ slots[s].info THEN [games EXCEPT ![o].data = half]
              ELSE games
  /\ UNCHANGED slots
WorldOf(o, name) == LET a == games[o].at IN
  IF a = 0 THEN <<>> ELSE IF slots[a].there /\ name \in DOMAIN slots[a].worlds THEN <<slots[a].worlds[name]>> ELSE <<>>

\* The user of the computer
Delete(s) == slots' = [slots EXCEPT ![s] = NoSlot] /\ UNCHANGED games
Spoil(s, file) == /\ slots[s].there /\ UNCHANGED games
                  /\ slots' = CASE file = "info" -> [slots EXCEPT ![s].info = FALSE]
                                [] file = "dat" -> [slots EXCEPT ![s].dat = FALSE]
                                [] file = "thumb" -> [slots EXCEPT ![s].thumb = FALSE]
                                [] file = "extra" -> [slots EXCEPT ![s].extra = @ \cup {"NOTES.TXT"}]
============================================================================================================================
