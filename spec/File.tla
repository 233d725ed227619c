-------------------------------- MODULE File --------------------------------
(* File objects (IEEE 1076-2008 5.5, 1076-2019 5.5.3).                       *)
(* The disk maps names to sequences of values (sequences of integers); a     *)
(* file object is closed or has a name, a mode and a position.  A case is a  *)
(* sequence of operations on file objects with what the program logged, how  *)
(* the run ended and what it left on disk.  Streams: the element type is an  *)
(* unconstrained array; its files are sequences of elements.                 *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils, SequencesExt

Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES tc, pc, disk, obj, out, err
vars == <<tc, pc, disk, obj, out, err>>
C == Cases[tc]

Closed == [open |-> FALSE, name |-> 0, mode |-> "", pos |-> 0]
NoFile == <<FALSE, <<>>>>

Init == /\ tc \in 1..Len(Cases)
        /\ pc = 1 /\ out = <<>> /\ err = ""
        /\ obj = [f \in 1..C.nobj |-> Closed]
        /\ disk = [n \in 1..C.nname |-> IF C.pre[n] = 0 THEN NoFile ELSE <<TRUE, C.predata[n]>>]

Op == C.ops[pc]
O == obj[Op.f]
Data(n) == disk[n][2]
Log(v) == out' = Append(out, <<Op.id>> \o v)
Error(e) == err' = e /\ UNCHANGED <<disk, obj, out>>
SetObj(o) == obj' = [obj EXCEPT ![Op.f] = o]

\* status values: open_ok 0, status_error 1, name_error 2, mode_error 3
OpenStatus == IF O.open THEN 1
              ELSE IF Op.name = 0 THEN 2                                  \* an impossible name
              ELSE IF Op.mode \in {"read", "readwrite"} /\ ~disk[Op.name][1] THEN 2
              ELSE 0
DoOpen ==
  /\ IF OpenStatus = 0
     THEN /\ disk' = IF Op.mode = "write" THEN [disk EXCEPT ![Op.name] = <<TRUE, <<>>>>]
                     ELSE IF ~disk[Op.name][1] THEN [disk EXCEPT ![Op.name] = <<TRUE, <<>>>>]
                     ELSE disk
          /\ SetObj([open |-> TRUE, name |-> Op.name, mode |-> Op.mode,
                     pos |-> IF Op.mode = "append" /\ disk[Op.name][1] THEN Len(Data(Op.name)) ELSE 0])
     ELSE UNCHANGED <<disk, obj>>
  /\ IF Op.status THEN Log(<<OpenStatus>>) /\ UNCHANGED err
     ELSE /\ UNCHANGED out
          /\ err' = CASE OpenStatus = 0 -> "" [] OpenStatus = 1 -> "open" [] OTHER -> "name"

\* writing replaces the value at the position, except that append always adds at the end
Put(s, p, v) == SubSeq(s, 1, p) \o v \o SubSeq(s, p + Len(v) + 1, Len(s))
DoWrite ==
  IF ~O.open THEN Error("closed")
  ELSE IF O.mode = "read" THEN Error("mode")
  ELSE \E vs \in {IF C.stream THEN [i \in 1..Len(Op.v) |-> <<Op.v[i]>>] ELSE <<Op.v>>} :
       \E at \in {IF O.mode = "append" THEN Len(Data(O.name)) ELSE O.pos} :
         /\ disk' = [disk EXCEPT ![O.name] = <<TRUE, Put(@[2], at, vs)>>]
         /\ SetObj([O EXCEPT !.pos = at + Len(vs)])
         /\ UNCHANGED <<out, err>>

Left == Len(Data(O.name)) - O.pos
DoRead ==
  IF ~O.open THEN Error("closed")
  ELSE IF O.mode \in {"write", "append"} THEN Error("mode")
  ELSE IF C.stream
       THEN \E n \in {IF Op.n < Left THEN Op.n ELSE Left} :
              /\ Log(<<n>> \o [i \in 1..n |-> Data(O.name)[O.pos + i][1]])
              /\ SetObj([O EXCEPT !.pos = @ + n])
              /\ UNCHANGED <<disk, err>>
       ELSE IF Left <= 0 THEN Error("end")
       ELSE /\ Log(Data(O.name)[O.pos + 1])
            /\ SetObj([O EXCEPT !.pos = @ + 1])
            /\ UNCHANGED <<disk, err>>

Base(origin) == CASE origin = "begin" -> 0 [] origin = "current" -> O.pos [] origin = "end" -> Len(Data(O.name))

Bool(b) == IF b THEN 1 ELSE 0
Modes == <<"read", "write", "append", "readwrite">>
ModeCode(m) == (CHOOSE i \in 1..4 : Modes[i] = m) - 1

Do ==
  CASE Op.op = "open" -> DoOpen
    [] Op.op = "write" -> DoWrite
    [] Op.op = "read" -> DoRead
    [] Op.op = "close" -> SetObj(Closed) /\ UNCHANGED <<disk, out, err>>
    [] Op.op = "state" -> Log(<<IF O.open THEN 0 ELSE 1>>) /\ UNCHANGED <<disk, obj, err>>
    [] OTHER ->
       IF ~O.open THEN Error("closed")
       ELSE CASE Op.op = "endfile" ->
                   /\ Log(<<Bool(O.mode \in {"write", "append"} \/ Left <= 0)>>)
                   /\ UNCHANGED <<disk, obj, err>>
              [] Op.op = "flush" -> UNCHANGED <<disk, obj, out, err>>
              [] Op.op = "mode" -> Log(<<ModeCode(O.mode)>>) /\ UNCHANGED <<disk, obj, err>>
              [] Op.op = "canseek" -> Log(<<1>>) /\ UNCHANGED <<disk, obj, err>>
              [] Op.op = "size" -> Log(<<C.size * Len(Data(O.name))>>) /\ UNCHANGED <<disk, obj, err>>
              [] Op.op = "position" ->
                   /\ Log(<<C.size * (CASE Op.origin = "begin" -> O.pos
                                       [] Op.origin = "current" -> 0
                                       [] Op.origin = "end" -> Left)>>)
                   /\ UNCHANGED <<disk, obj, err>>
              [] Op.op = "rewind" -> SetObj([O EXCEPT !.pos = 0]) /\ UNCHANGED <<disk, out, err>>
              [] Op.op = "seek" -> SetObj([O EXCEPT !.pos = Base(Op.origin) + Op.n]) /\ UNCHANGED <<disk, out, err>>
              [] Op.op = "truncate" ->
                   /\ disk' = [disk EXCEPT ![O.name] = <<TRUE, SubSeq(@[2], 1, Base(Op.origin) + Op.n)>>]
                   /\ SetObj([O EXCEPT !.pos = IF @ > Base(Op.origin) + Op.n THEN Base(Op.origin) + Op.n ELSE @])
                   /\ UNCHANGED <<out, err>>

Step == /\ pc <= Len(C.ops)
        /\ err = ""
        /\ Do
        /\ pc' = pc + 1
        /\ UNCHANGED tc

Ended == err # "" \/ pc = Len(C.ops) + 1
FinalDisk == [n \in 1..C.nname |-> IF disk[n][1] THEN <<1, disk[n][2]>> ELSE <<0, <<>>>>]
Done == /\ pc <= Len(C.ops) + 1
        /\ Ended
        /\ IF C.err = err /\ C.log = out /\ (C.disk = <<>> \/ C.disk = FinalDisk) THEN PrintT(<<"ACCEPT", tc>>)
           ELSE PrintT(<<"REJECT", tc, "expected", err, out, FinalDisk, "nvc", C.err, C.log, C.disk>>)
        /\ pc' = Len(C.ops) + 2
        /\ UNCHANGED <<tc, disk, obj, out, err>>
Next == Step \/ Done
=============================================================================
