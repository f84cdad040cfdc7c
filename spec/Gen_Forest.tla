----------------------------- MODULE Gen_Forest -----------------------------
EXTENDS MC_Forest, Json
Emit == step = 0 => PrintT(ToJson(t))
============================================================================
