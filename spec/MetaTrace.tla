-------------------------------- MODULE MetaTrace --------------------------------
EXTENDS TraceCheck, Meta
===================================================================================
