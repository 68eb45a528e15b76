----------------------------- MODULE MCSparseA -----------------------------
EXTENDS MCSparse
cR == <<2, 2>>
cB == <<2, 0>>
cP == <<2, 2>>
cG == {<<2, 1>>, <<1, 2>>, <<1, 1>>}
=============================================================================
