-------------------------------- MODULE MetadataTrace --------------------------------
EXTENDS TraceCheck, Metadata
======================================================================================
