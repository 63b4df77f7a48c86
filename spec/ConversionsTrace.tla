---------------------------- MODULE ConversionsTrace ----------------------------
EXTENDS TraceCheck, Conversions
================================================================================
