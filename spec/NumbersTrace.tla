-------------------------------- MODULE NumbersTrace --------------------------------
EXTENDS TraceCheck, Numbers
=====================================================================================
