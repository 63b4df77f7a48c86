----------------------------- MODULE SpectralTrace -----------------------------
EXTENDS TraceCheck, Spectral
================================================================================
