----------------------------- MODULE OscillatorTrace -----------------------------
EXTENDS TraceCheck, Oscillator
================================================================================
