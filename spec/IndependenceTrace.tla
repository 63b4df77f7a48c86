----------------------------- MODULE IndependenceTrace -----------------------------
EXTENDS TraceCheck, Independence
====================================================================================
