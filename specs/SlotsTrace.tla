----------------------------- MODULE SlotsTrace ------------------------------
(* Trace events shared by all containers. *)
EXTENDS Slots, TraceBase

IsSlotEvent == E.e \in {"New", "Copy", "Move", "Delete", "Assign", "MoveAssign", "Clear", "End"}
SlotAct ==
    CASE E.e = "New"        -> New(E.o)
      [] E.e = "Copy"       -> Copy(E.o, E.p)
      [] E.e = "Move"       -> Move(E.o, E.p)
      [] E.e = "Delete"     -> Delete(E.o)
      [] E.e = "Assign"     -> Assign(E.o, E.p)
      [] E.e = "MoveAssign" -> MoveAssign(E.o, E.p)
      [] E.e = "Clear"      -> Clear(E.o)
      [] E.e = "End"        -> st' = NoSlots
      [] OTHER              -> FALSE

(* what an event reports about the whole state: contents of all slots; in long histories only some events do *)
Obs == Has("st") => E.st = st'
=============================================================================
