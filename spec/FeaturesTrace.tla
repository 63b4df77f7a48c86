----------------------------- MODULE FeaturesTrace -----------------------------
EXTENDS TraceCheck, Features
================================================================================
