"""Which source functions each contract speaks about."""
COMPOSED = ["control.Control.elaborate", "datapath.RegFile.elaborate",
            "datapath.DataPath.elaborate", "decode.Decode.elaborate",
            "insn.Insn", "top.Top.elaborate", "ucoderom.UCodeROM.elaborate"]


def under_contract(what, formal, alone):
    import contracts
    return (sorted(alone) + [
        n + " (with its caller)" for n in
        sorted(c.name for c in contracts.TABLE if c.name not in alone)]
        + COMPOSED + ["formal.FormalTop.elaborate"] * formal + [
        "microcode.asm routine for " + w for w in what
        if w not in ("reset", "coverage")])
