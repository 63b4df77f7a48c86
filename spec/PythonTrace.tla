------------------------------- MODULE PythonTrace -------------------------------
EXTENDS TraceCheck, Python
==================================================================================
