------------------------------ MODULE RingTrace -------------------------------
EXTENDS TraceCheck, Ring
===============================================================================
