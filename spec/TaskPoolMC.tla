----------------------------- MODULE TaskPoolMC -----------------------------
EXTENDS TaskPool
=============================================================================
