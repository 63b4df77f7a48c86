---------------------------- MODULE StatisticsTrace ----------------------------
EXTENDS TraceCheck, Statistics
================================================================================
