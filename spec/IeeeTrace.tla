---- MODULE IeeeTrace ----
EXTENDS Ieee, FnTrace
====
