------------------------------- MODULE AdfApi -------------------------------
(* The package and the code generator for its public module (api.py).        *)
(*                                                                           *)
(* A maintainer writes, breaks and deletes modules of marks and nodes and    *)
(* runs the generator; users import the public module as it was generated    *)
(* last.  A module is a sequence of definitions, each given by its kind.     *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

CONSTANTS Modules,      \* names of the modules that may be written
          Kinds, MaxDefs

(* What is looked at: a module called mark_... or node_... in its directory. *)
Scanned(m) == m \in {"mark_zza", "mark_footnode", "mark_Zg2", "node_zzc", "node_bookmark", "node_node_zzd"}
(* Kinds of definitions that are public: a class of an element or of its     *)
(* attributes that the module itself defines, and an alias of types.  Not:   *)
(* a class imported from elsewhere, one that is no element, a private one,   *)
(* a function, a constant.                                                   *)
PublicKind(k) == k \in {"element", "attrs", "derived", "subattrs", "alias"}
AllKinds == {"element", "attrs", "derived", "subattrs", "alias", "imported", "plain", "private", "function", "constant"}

VARIABLES mods,     \* module -> its definitions, or "absent" / "broken"
          api,      \* what the generated module lists: <<module, position, kind>>, which stands for a name
          res       \* result of the last action
avars == <<mods, api, res>>

Absent == <<"absent">>
Broken == <<"broken">>
There(m) == mods[m] # Absent /\ mods[m] # Broken
Public == UNION {{<<m, i, mods[m][i]>> : i \in {j \in 1..Len(mods[m]) : PublicKind(mods[m][j])}} : m \in {x \in Modules : Scanned(x) /\ There(x)}}
(* The public module can be imported if all it lists is still there. *)
Importable == \A x \in api : x \in Public

AInit == mods = [m \in Modules |-> Absent] /\ api = {} /\ res = "start"
Write(m, ds) == mods' = [mods EXCEPT ![m] = ds] /\ res' = "done" /\ UNCHANGED api
Delete(m) == mods[m] # Absent /\ mods' = [mods EXCEPT ![m] = Absent] /\ res' = "done" /\ UNCHANGED api
Break(m) == mods' = [mods EXCEPT ![m] = Broken] /\ res' = "done" /\ UNCHANGED api
Generate == api' = Public /\ res' = "done" /\ UNCHANGED mods
Import == res' = (IF Importable THEN "names" ELSE "fails") /\ UNCHANGED <<mods, api>>

---------------------------------------------------------------------------
(* Right after generating, what users import is what the modules define. *)
Fresh == res = "names" => \A x \in api : x \in Public
UpToDate == [][(api' # api) => (api' = Public /\ mods' = mods)]_avars
=============================================================================
