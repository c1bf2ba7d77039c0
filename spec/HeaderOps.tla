----------------------------- MODULE HeaderOps -------------------------------
(* The header stream: signature, version, flags.                              *)
EXTENDS Integers, Sequences, FiniteSets, TLC

FlagNames == <<"compressed", "password", "distributable", "script", "drm", "xmltemplate_storage", "history", "cert_signed", "cert_encrypted", "cert_signature_extra", "cert_drm", "ccl">>
(* from the bytes: four of the version, least significant first, and the flags as a set of bits *)
Version(bytes) == <<bytes[4], bytes[3], bytes[2], bytes[1]>>
RECURSIVE Dotted(_)
Dotted(v) == IF Len(v) = 1 THEN ToString(v[1]) ELSE ToString(v[1]) \o "." \o Dotted(Tail(v))
BitsOf(byte) == { i \in 0 .. 7 : (byte \div (2 ^ i)) % 2 = 1 }
Flags(bytes) == { i \in 0 .. 31 : (i % 8) \in BitsOf(bytes[(i \div 8) + 1]) }
Flag(bytes, i) == IF i \in Flags(bytes) THEN 1 ELSE 0
Reported(bytes) == [i \in 1 .. Len(FlagNames) |-> Flag(bytes, i - 1)]
Lines(version, flags) ==
  LET flag(n) == LET i == CHOOSE i \in 1 .. Len(FlagNames) : FlagNames[i] = n IN n \o ": " \o ToString(Flag(flags, i - 1)) IN
  (* in the order of the names *)
  << flag("ccl"), flag("cert_drm"), flag("cert_encrypted"), flag("cert_signature_extra"), flag("cert_signed"), flag("compressed"), flag("distributable"), flag("drm"), flag("history"), flag("password"),
     flag("script"), "signature: HWP Document File", "version: " \o Dotted(Version(version)), flag("xmltemplate_storage") >>
=============================================================================
