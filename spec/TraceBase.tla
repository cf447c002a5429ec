------------------------------ MODULE TraceBase -----------------------------
(* Reading recorded traces and reporting verdicts, shared by all trace specs *)
EXTENDS Integers, Sequences, FiniteSets, Json, IOUtils, TLC, SequencesExt

Traces == JsonDeserialize(IOEnv.TRACE_FILE)

\* "C06.value" -> "C06.purity.value"
Pre(word, c) == SubSeq(c, 1, 3) \o "." \o word \o SubSeq(c, 4, Len(c))

Verdict(ti, bad) == PrintT("@@V" \o ToJson(<<ti, SetToSeq(bad)>>))
=============================================================================
