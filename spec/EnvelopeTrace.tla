----------------------------- MODULE EnvelopeTrace -----------------------------
EXTENDS TraceCheck, Envelope
================================================================================
