------------------------------- MODULE LoggerTrace -------------------------------
EXTENDS TraceCheck, Logger
==================================================================================
