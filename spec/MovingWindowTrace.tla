--------------------------- MODULE MovingWindowTrace ---------------------------
EXTENDS TraceCheck, MovingWindow
===============================================================================
