----------------------------- MODULE TemporalTrace -----------------------------
EXTENDS TraceCheck, Temporal
================================================================================
