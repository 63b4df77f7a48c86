------------------------------ MODULE ArraysTrace ------------------------------
EXTENDS TraceCheck, Arrays
================================================================================
