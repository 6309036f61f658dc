---------------------------- MODULE ExportSmall ----------------------------
(* Writes the documents of a small scope for the real code. *)
EXTENDS AdfSmall, Json, IOUtils
D == Family(IOEnv.PROP, EnvSize)
ASSUME JsonSerialize(IOEnv.OUT, SetToSeq(D)) /\ PrintT(<<"SMALL", IOEnv.PROP, Cardinality(D)>>)
=============================================================================
