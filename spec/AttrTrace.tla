---- MODULE AttrTrace ----
EXTENDS Attr, FnTrace
====
