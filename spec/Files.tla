------------------------------- MODULE Files --------------------------------
(* Saving to and loading from paths.  A disk maps the paths "a" and "b" to    *)
(* contents (None: no file); "gone" lies in a folder that does not exist and   *)
(* "dir" is a folder.  bytesOf gives the bytes write() produces for a value,   *)
(* or None when the value cannot be converted or serialized; denotes gives     *)
(* the value read() yields for a content, or None.                             *)
EXTENDS Naturals, Sequences

Paths == {"a", "b"}
FileStep(disk, op, bytesOf, denotes, None) ==
  IF op.do = "save"
  THEN IF bytesOf[op.val] = None \/ op.path \notin Paths THEN [ok |-> FALSE, disk |-> disk, v |-> None]
       ELSE [ok |-> TRUE, disk |-> [disk EXCEPT ![op.path] = bytesOf[op.val]], v |-> None]
  ELSE IF op.path \notin Paths THEN [ok |-> FALSE, disk |-> disk, v |-> None]
  ELSE IF disk[op.path] = None THEN [ok |-> FALSE, disk |-> disk, v |-> None]
  ELSE [ok |-> denotes[disk[op.path]] # None, disk |-> disk, v |-> denotes[disk[op.path]]]
=============================================================================
