------------------------------ MODULE ShaHash -------------------------------
(***************************************************************************)
(* The concrete digests, over lower-case hexadecimal byte strings.         *)
(***************************************************************************)
EXTENDS Sha256

ShaEmpty == Sha(<<>>)
ShaLeaf(d) == Sha(<<"00", d>>)
ShaNode(l, r) == Sha(<<"01", l, r>>)

ShaZero == "0000000000000000000000000000000000000000000000000000000000000000"
\* k: key, v: the digest of the value
ShaSLeaf(k, v) == Sha(<<"00", k, v>>)
ShaSNode(l, r) == Sha(<<"01", l, r>>)

\* Fees are 8-byte big-endian hexadecimal strings here.
ShaFLeaf(f, d) == Sha(<<"00", f, d>>)
ShaFNode(lf, ld, rf, rd) == Sha(<<"01", lf, ld, rf, rd>>)
=============================================================================
