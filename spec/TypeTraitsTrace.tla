------------------------------ MODULE TypeTraitsTrace ------------------------------
EXTENDS TraceCheck, TypeTraits
====================================================================================
