-------------------------------- MODULE StringsTrace --------------------------------
EXTENDS TraceCheck, Strings
=====================================================================================
