"""Trusted stand-in for amaranth_soc.wishbone: the port list of Wishbone Classic.

Mirrors amaranth_soc.wishbone.Signature for the feature-less configuration
Sentinel uses (no err/rty/stall/lock/cti/bte).
"""
from amaranth.lib import wiring
from amaranth.lib.wiring import In, Out

__all__ = ["Signature"]


class Signature(wiring.Signature):
    def __init__(self, *, addr_width, data_width, granularity=None,
                 features=frozenset()):
        if granularity is None:
            granularity = data_width
        if features:
            raise NotImplementedError("stub: no optional Wishbone features")
        self.addr_width = addr_width
        self.data_width = data_width
        self.granularity = granularity
        super().__init__({
            "adr": Out(addr_width),
            "dat_w": Out(data_width),
            "dat_r": In(data_width),
            "sel": Out(data_width // granularity),
            "cyc": Out(1),
            "stb": Out(1),
            "we": Out(1),
            "ack": In(1),
        })
