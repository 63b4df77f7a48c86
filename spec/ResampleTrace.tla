------------------------------ MODULE ResampleTrace ------------------------------
EXTENDS TraceCheck, Resample
==================================================================================
