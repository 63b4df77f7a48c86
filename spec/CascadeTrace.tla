------------------------------ MODULE CascadeTrace ------------------------------
EXTENDS TraceCheck, Biquad
===============================================================================
