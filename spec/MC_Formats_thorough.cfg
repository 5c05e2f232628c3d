SPECIFICATION Spec
CONSTANTS
  Formats_ = {"Hlpb", "Matl", "Modl", "Mesh", "Skel", "Anim", "Nlst", "Nrpd", "Nufx", "Shdr"}
  Both = TRUE
INVARIANTS Laws Back Emit
CHECK_DEADLOCK FALSE
