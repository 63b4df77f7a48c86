------------------------------ MODULE WindowsTrace ------------------------------
EXTENDS TraceCheck, Windows
================================================================================
