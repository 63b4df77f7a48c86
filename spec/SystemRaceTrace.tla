------------------------------ MODULE SystemRaceTrace ------------------------------
EXTENDS TraceCheck, SystemRace
====================================================================================
