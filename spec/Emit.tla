-------------------------------- MODULE Emit --------------------------------
(* Writes the test cases that a model generates: one JSON record per line.    *)
EXTENDS TLC, Json, CSV, IOUtils
EmitCase(rec) == CSVWrite("%1$s", <<ToJson(rec)>>, IOEnv.CASES)
=============================================================================
