---------------------------- MODULE BoundaryGen ----------------------------
(* Every boundary and query point of a small lattice.  Normals and axes are *)
(* not normalised (the configuration need not either).                      *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
VARIABLES x
Ask == ndJsonDeserialize(IOEnv.ASK)[1]
Dirs == { d \in (-1..1) \X (-1..1) \X (-1..2) : d # <<0, 0, 0>> /\ (d[3] = 2 => d[1] = 0 /\ d[2] = 0) }
Few  == { <<0,0,2>>, <<1,0,0>>, <<0,-1,0>>, <<1,1,0>>, <<-1,1,1>>, <<0,1,-1>> }
Init == x \in [kind : {"wall"}, in : {1}, r : {1}, n : Dirs] \cup
              [kind : {"tube"}, in : {0, 1}, r : {Ask.radii[k] : k \in DOMAIN Ask.radii}, n : IF Ask.all = 1 THEN Dirs ELSE Few] \cup
              [kind : {"sphere"}, in : {0, 1}, r : {Ask.radii[k] : k \in DOMAIN Ask.radii}, n : {<<0, 0, 1>>}]
Next == UNCHANGED x
Emit == PrintT(<<"CASE", ToJson(x)>>)
=============================================================================
