------------------------------- MODULE Codec -------------------------------
(* Binary output (Util/Base64.hpp, Util/IOHelper.hpp): base64 as in RFC     *)
(* 4648, and the VTK XML layout with a 4-byte little-endian length header.  *)
(* Texts are sequences of character codes, data sequences of bytes.         *)
EXTENDS Recorded, Tables
VARIABLES done
Pad == 61
ValueOf == [c \in 0..255 |-> CASE c \in 65..90  -> c - 65
                               [] c \in 97..122 -> c - 71
                               [] c \in 48..57  -> c + 4
                               [] c = 43 -> 62
                               [] c = 47 -> 63
                               [] OTHER -> 64]
Group(t, g) == SubSeq(t, 4 * g - 3, 4 * g)
Padding(q) == IF q[4] # Pad THEN 0 ELSE IF q[3] # Pad THEN 1 ELSE 2
ValidGroup(q) ==
  /\ \A k \in 1..(4 - Padding(q)) : ValueOf[q[k]] < 64
  /\ Padding(q) = 1 => ValueOf[q[3]] % 4 = 0         \* bits that carry nothing are zero
  /\ Padding(q) = 2 => ValueOf[q[2]] % 16 = 0
Bytes(q) ==
  LET v == [k \in 1..4 |-> IF q[k] = Pad THEN 0 ELSE ValueOf[q[k]]]
      all == << v[1] * 4 + v[2] \div 16, (v[2] % 16) * 16 + v[3] \div 4, (v[3] % 4) * 64 + v[4] >>
  IN SubSeq(all, 1, 3 - Padding(q))
Valid(t) == Len(t) % 4 = 0 /\ \A g \in 1..(Len(t) \div 4) : ValidGroup(Group(t, g))
\* padding ends a unit; the next unit (header, data) may follow directly
Decode(t) == Concat([g \in 1..(Len(t) \div 4) |-> Bytes(Group(t, g))])
Ends == << Pad, Pad, Pad, Pad >>
LittleEndian4(n) == << n % 256, (n \div 256) % 256, (n \div 65536) % 256, n \div 16777216 >>
Holds(t, bytes) == Valid(t) /\ Decode(t) = LittleEndian4(Len(bytes)) \o bytes

Enc(o) ==
  LET new == SubSeq(o.out, Len(o.prior) + 1, Len(o.out))
      marked == o.mark = 1 /\ Len(o.bytes) % 3 = 0
      t == IF marked THEN SubSeq(new, 1, Len(new) - 4) ELSE new
  IN /\ Chk("appends", Len(o.out) >= Len(o.prior) /\ SubSeq(o.out, 1, Len(o.prior)) = o.prior /\ o.ret = Len(new))
     /\ Chk("end mark", marked => (Len(new) >= 4 /\ SubSeq(new, Len(new) - 3, Len(new)) = Ends))
     /\ Chk("base64", Valid(t) /\ \A g \in 1..((Len(t) \div 4) - 1) : Padding(Group(t, g)) = 0)
     /\ Chk("encodes the bytes", Decode(t) = o.bytes)
     /\ Chk("decoder", o.back = o.bytes /\ o.all = o.bytes)
Vec(o) == Chk("header and bytes", Holds(o.code, o.bytes))
Array(a, w) ==
  /\ Chk("declares what it holds", a.name = w.name /\ a.type = w.type /\ a.comp = w.comp /\ a.format = "binary")
  /\ Chk("header and bytes", Holds(a.code, w.bytes))
File(o) == Chk("one array", Len(o.got) = 1) /\ Array(o.got[1], o.want)
Fields(s) == {[sec |-> s[k].sec, name |-> s[k].name, type |-> s[k].type, comp |-> s[k].comp] : k \in DOMAIN s}
Index(o) ==
  /\ Chk("names each field once", Len(o.got) = Len(o.want) /\ Fields(o.got) = Fields(o.want))
  /\ Chk("names each piece in order", o.sources = o.pieces)
  /\ Chk("kind of file", o.head = << o.file, "LittleEndian", "UInt32" >>)
  /\ Chk("points", o.points = << << "Float64", 3 >> >>)
Piece(o) ==
  LET byName(s, n) == {k \in DOMAIN s : s[k].name = n} IN
  /\ Chk("kind of file", o.head = << "PolyData", "LittleEndian", "UInt32" >> /\ o.ihead = << "PPolyData", "LittleEndian", "UInt32" >>)
  /\ Chk("holds the data", \A k \in DOMAIN o.want : Cardinality(byName(o.got, o.want[k].name)) = 1)
  /\ \A k \in DOMAIN o.want : \A j \in byName(o.got, o.want[k].name) : o.got[j].sec = o.want[k].sec /\ Array(o.got[j], o.want[k])
  /\ \A k \in DOMAIN o.got : Chk("array of valid base64", Valid(o.got[k].code) /\ o.got[k].format = "binary" /\
         LET d == Decode(o.got[k].code) IN Len(d) >= 4 /\ SubSeq(d, 1, 4) = LittleEndian4(Len(d) - 4))
  /\ Chk("index declares exactly the arrays of the pieces",
         Fields(SelectSeq(o.index, LAMBDA a : TRUE)) = Fields(SelectSeq(o.got, LAMBDA a : a.sec \in {"PointData", "CellData"})) /\
         Len(o.index) = Cardinality(Fields(o.index)))
  /\ Chk("index describes the points", \A j \in {k \in DOMAIN o.got : o.got[k].sec = "Points"} : o.points = << << o.got[j].type, o.got[j].comp >> >>)
  /\ Chk("names each piece", o.sources = o.pieces)
  /\ "lines" \in DOMAIN o => Chk("counts points and lines", o.count = << 2 * o.lines, o.lines >>)
Step(o) ==
  /\ CASE o.op = "enc" -> Enc(o)
       [] o.op = "vec" -> Vec(o)
       [] o.op = "file" -> File(o)
       [] o.op = "index" -> Index(o)
       [] o.op = "piece" -> Piece(o)
  /\ done' = done + 1
Init == i = 1 /\ done = 0
Next == (More /\ Step(Log[i])) \/ (Over /\ UNCHANGED done)
=============================================================================
