------------------------------ MODULE StdLogic ------------------------------
(* The truth tables of IEEE 1164, indexed from 1 by position of               *)
(* 'U' 'X' '0' '1' 'Z' 'W' 'L' 'H' '-' plus one; entries are positions 0..8.  *)
EXTENDS Integers, Sequences

ResolveTable == <<
  <<0,0,0,0,0,0,0,0,0>>,
  <<0,1,1,1,1,1,1,1,1>>,
  <<0,1,2,1,2,2,2,2,1>>,
  <<0,1,1,3,3,3,3,3,1>>,
  <<0,1,2,3,4,5,6,7,1>>,
  <<0,1,2,3,5,5,5,5,1>>,
  <<0,1,2,3,6,5,6,5,1>>,
  <<0,1,2,3,7,5,5,7,1>>,
  <<0,1,1,1,1,1,1,1,1>> >>

AndTable == <<
  <<0,0,2,0,0,0,2,0,0>>,
  <<0,1,2,1,1,1,2,1,1>>,
  <<2,2,2,2,2,2,2,2,2>>,
  <<0,1,2,3,1,1,2,3,1>>,
  <<0,1,2,1,1,1,2,1,1>>,
  <<0,1,2,1,1,1,2,1,1>>,
  <<2,2,2,2,2,2,2,2,2>>,
  <<0,1,2,3,1,1,2,3,1>>,
  <<0,1,2,1,1,1,2,1,1>> >>

OrTable == <<
  <<0,0,0,3,0,0,0,3,0>>,
  <<0,1,1,3,1,1,1,3,1>>,
  <<0,1,2,3,1,1,2,3,1>>,
  <<3,3,3,3,3,3,3,3,3>>,
  <<0,1,1,3,1,1,1,3,1>>,
  <<0,1,1,3,1,1,1,3,1>>,
  <<0,1,2,3,1,1,2,3,1>>,
  <<3,3,3,3,3,3,3,3,3>>,
  <<0,1,1,3,1,1,1,3,1>> >>

XorTable == <<
  <<0,0,0,0,0,0,0,0,0>>,
  <<0,1,1,1,1,1,1,1,1>>,
  <<0,1,2,3,1,1,2,3,1>>,
  <<0,1,3,2,1,1,3,2,1>>,
  <<0,1,1,1,1,1,1,1,1>>,
  <<0,1,1,1,1,1,1,1,1>>,
  <<0,1,2,3,1,1,2,3,1>>,
  <<0,1,3,2,1,1,3,2,1>>,
  <<0,1,1,1,1,1,1,1,1>> >>

NotTable == <<0,1,3,2,1,1,3,2,1>>

\* 'U' 'X' '0' '1' 'Z' 'W' 'L' 'H' '-'
To01Table == <<1,1,2,3,1,1,2,3,1>>

=============================================================================
