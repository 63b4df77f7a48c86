-------------------------------- MODULE HeadersTrace --------------------------------
EXTENDS TraceCheck, Headers
=====================================================================================
