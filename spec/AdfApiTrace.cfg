SPECIFICATION Spec
CONSTANTS
  Modules = {"mark_zza", "mark_footnode", "mark_Zg2", "node_zzc", "node_bookmark", "node_node_zzd", "zze", "parse_zzf", "nodes_zzh", "marker_zzi"}
  Kinds = {}
  MaxDefs = 4
CHECK_DEADLOCK FALSE
POSTCONDITION Consumed
