"""Simulated classical network between measuring parties: a seeded scheduler owns delivery, crashes and partitions."""

from __future__ import annotations


class Net:
    """Messages are (src, dst, payload).  While faults last, the scheduler may delay, reorder, duplicate, lose
    (with later retransmission), and block links; parties may crash, losing their volatile inbox."""

    def __init__(self, ctx, parties, budget):
        self.ctx = ctx
        self.parties = list(parties)
        self.flight = []
        self.blocked = set()  # partitioned-off parties
        self.down = set()
        self.budget = budget  # fault budget: after it is spent the network is reliable
        self.lost = []

    def send(self, src, dst, payload):
        self.flight.append((src, dst, payload))

    def _fault(self, kind):
        self.budget -= 1
        self.ctx.fault(kind)

    def deliverable(self):
        return [i for i, (s, d, _) in enumerate(self.flight)
                if s not in self.blocked and d not in self.blocked and d not in self.down]

    def heal(self):
        self.blocked.clear()
        self.flight += self.lost
        self.lost = []

    def faulty_step(self, on_crash, on_restart):
        """One fault, decided by the scheduler.  Returns False when the budget is spent (network heals)."""
        ctx = self.ctx
        if self.budget <= 0:
            return False
        k = ctx.draw(6)
        if k == 0 and self.flight:
            i = ctx.draw(len(self.flight))
            self._fault("message-duplicated")
            self.flight.append(self.flight[i])
        elif k == 1 and self.flight:
            i = ctx.draw(len(self.flight))
            self._fault("message-lost")
            self.lost.append(self.flight.pop(i))
        elif k == 2 and self.lost:
            self._fault("message-retransmitted")
            self.flight.append(self.lost.pop(ctx.draw(len(self.lost))))
        elif k == 3:
            up = [p for p in self.parties if p not in self.blocked]
            if up:
                self._fault("partition")
                self.blocked.update(ctx.subset(up, 1, 3))
        elif k == 4:
            up = [p for p in self.parties if p not in self.down]
            if up:
                v = ctx.pick(up)
                self._fault("crash")
                self.down.add(v)
                on_crash(v)
        elif self.down or self.blocked:
            self._fault("restart-heal")
            if self.down:
                v = ctx.pick(sorted(self.down))
                self.down.discard(v)
                on_restart(v)
            else:
                self.blocked.discard(ctx.pick(sorted(self.blocked)))
        else:
            self.budget -= 1
        return True
