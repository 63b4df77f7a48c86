------------------------------ MODULE BiquadTrace ------------------------------
EXTENDS TraceCheck, Biquad
===============================================================================
