------------------------------ MODULE CodecGen ------------------------------
(* All byte sequences up to a length over the bytes whose bit patterns      *)
(* differ in every place base64 cuts, and all single bytes.                 *)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils
VARIABLES x
Ask == ndJsonDeserialize(IOEnv.ASK)[1]
Some == {Ask.bytes[k] : k \in DOMAIN Ask.bytes}
Init == x \in UNION {[1..n -> Some] : n \in 0..Ask.max} \cup {<<b>> : b \in 0..255} \cup {<<85, 170, b>> : b \in 0..255} \cup {<<b, 85>> : b \in 0..255}
Next == UNCHANGED x
Emit == PrintT(<<"CASE", ToJson(x)>>)
=============================================================================
