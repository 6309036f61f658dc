--------------------------- MODULE ExportSchema ---------------------------
(* Writes the catalogue as JSON for the document generator. *)
EXTENDS AdfSchema, Json, IOUtils, TLC
ASSUME JsonSerialize(IOEnv.OUT, [node |-> NodeK, mark |-> MarkK, child |-> ChildT,
                                 markof |-> MarkOf, unsupported |-> KnownUnsupported])
===========================================================================
