-------------------------------- MODULE MCMfs --------------------------------
EXTENDS Mfs
A == <<"s", "a">>
B == <<"s", "b">>
I0 == <<"i", 0>>
I1 == <<"i", 1>>
AlphabetS == <<W, I0, I1, A, B>>
PathsS == { <<>>, <<A>>, <<B>>, <<W>>, <<I0>>, <<A, A>>, <<A, B>>, <<A, W>>, <<A, I0>>, <<A, I1, B>>, <<A, W, B>>, <<W, B>>,
            <<A, W, W>>, <<I0, A>> }
PathsL == PathsS \cup { <<I1>>, <<B, A>>, <<W, W>>, <<A, I1>>, <<A, I1, A>>, <<A, W, B, A>>, <<W, A>>, <<B, I0, W>> }
MergesS == { <<>>, << <<A, B>>, <<B>> >>, << <<W, B>>, <<W, A>> >>, << <<A, I0>>, <<A, I1, B>>, <<B>> >>, << <<W>> >> }
MergesL == MergesS \cup { << <<A>>, <<A, B>>, <<A>> >>, << <<A, W, B>>, <<A, I0>> >>, << <<A, W, A>>, <<A, W, B>>, <<I0>> >> }
=============================================================================
