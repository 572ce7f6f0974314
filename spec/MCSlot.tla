------------------------------- MODULE MCSlot -------------------------------
EXTENDS Slot
AV    == {I(3), I(12), S("5"), S("12"), S("x"), None, Obj, B(TRUE)}
AVBig == AV \cup {I(-4), S(""), <<"mi", 2>>, <<"ms", "5">>}
=============================================================================
