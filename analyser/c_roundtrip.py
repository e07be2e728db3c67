"""C27: decoding what was encoded gives back the message."""


def check_C27(rep):
    rep.rule("composition: the writers yield exactly the bytes the wire format prescribes for a message and the readers exactly "
             "the message these bytes denote (C07 to C15), both against the same layout, which is injective")
