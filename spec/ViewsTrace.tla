------------------------------- MODULE ViewsTrace -------------------------------
EXTENDS TraceCheck, Views
=================================================================================
