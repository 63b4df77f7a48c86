------------------------------ MODULE DesignTrace ------------------------------
EXTENDS TraceCheck, Design
================================================================================
