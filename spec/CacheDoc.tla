----------------------------- MODULE CacheDoc -----------------------------
(* Small instances of Cache.                                               *)
EXTENDS Cache

L(deps) == [eager |-> FALSE, deps |-> deps]   \* a struct or container
P(t)    == [eager |-> TRUE, deps |-> <<t>>]   \* a pointer

\* A list of itself; a struct with a pointer to itself and a leaf; two
\* structs that refer to each other, one through a pointer.
GSelf   == <<L(<<1>>)>>
GTree   == <<L(<<2, 3>>), P(1), L(<<>>)>>
GMutual == <<L(<<2>>), L(<<3>>), P(1)>>
GWide   == <<L(<<2, 3>>), L(<<3, 1>>), P(4), L(<<2>>)>>
=============================================================================
