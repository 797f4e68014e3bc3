"""Trusted stand-in for the amaranth-soc package (not installed in this sandbox).

Only what sentinel.top / sentinel.formal need is provided.  See DESIGN.md,
"Trusted base".
"""
