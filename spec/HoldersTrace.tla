------------------------------ MODULE HoldersTrace ------------------------------
EXTENDS TraceCheck, Holders
=================================================================================
