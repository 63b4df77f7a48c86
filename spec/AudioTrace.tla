------------------------------- MODULE AudioTrace -------------------------------
EXTENDS TraceCheck, Audio
=================================================================================
