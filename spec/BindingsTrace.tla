------------------------------ MODULE BindingsTrace ------------------------------
EXTENDS TraceCheck, Bindings
==================================================================================
