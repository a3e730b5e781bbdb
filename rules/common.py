"""Shared by the property rules: anchored effect queries with one reported construct per obligation."""
from eff import Eff


class Q:
    def __init__(self, ctx, crate="bladeink"):
        self.ctx, self.crate = ctx, crate
        self.A = ctx.world.A[crate]

    def need(self, name, rid, crate=None):
        e = Eff(self.ctx.world.A[crate or self.crate], name)
        self.ctx.expect(rid, e.ok, f"anchor:{name}", f"{name} not found")
        return e if e.ok else None

    def implies(self, rid, E, f, key, msg, *lits):
        """whenever f, one of the literals holds"""
        g = 0
        for l in lits:
            g = E.B.OR(g, E.lit(l) if isinstance(l, str) else l)
        bad = E.B.AND(f, E.B.NOT(g))
        return self.ctx.expect(rid, not E.sat(bad), key, msg + (f" (when {E.witness(bad)})"[:300] if E.sat(bad) else ""), E.at)

    def never(self, rid, E, f, key, msg):
        return self.ctx.expect(rid, not E.sat(f), key, msg + (f" (when {E.witness(f)})"[:300] if E.sat(f) else ""), E.at)

    def same(self, rid, E, f, g, key, msg):
        """f exactly when g"""
        return self.never(rid, E, E.B.XOR(f, g), key, msg)

    def occurs(self, rid, E, f, key, msg):
        return self.ctx.expect(rid, E.sat(f), key, msg, E.at)

    def subset(self, rid, got, allowed, key, msg):
        for g in got:
            self.ctx.expect(rid, g in allowed, f"{key}:{g}", f"{msg}: {g}")
        return not (set(got) - set(allowed))
