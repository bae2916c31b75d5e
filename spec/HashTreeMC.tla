----------------------------- MODULE HashTreeMC ------------------------------
EXTENDS HashTree
SmallSets == {<<1, 2>>, <<1, 4>>, <<2, 4>>, <<4, 5>>}
MixedSets == {<<>>, <<1>>, <<1, 2>>, <<1, 4>>, <<1, 2, 4>>}
MoreSets == {<<1, 2>>, <<1, 4>>, <<2, 4>>, <<4, 5>>, <<3, 6>>, <<1, 5>>}
==============================================================================
