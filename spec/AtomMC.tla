---- MODULE AtomMC ----
EXTENDS Atom
MCStrings == {<<>>, <<1>>, <<1, 2>>, <<2>>}
====
