-------------------------------- MODULE RandomTrace --------------------------------
EXTENDS TraceCheck, Random
====================================================================================
