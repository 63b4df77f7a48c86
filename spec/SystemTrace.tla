------------------------------- MODULE SystemTrace -------------------------------
EXTENDS TraceCheck, System
==================================================================================
