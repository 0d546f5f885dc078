"""Helpers of spec.py."""
S, C, I, P, H, F = "schedules", "crash_points", "inputs", "programs", "histories", "fault_sequences"
CF = "configurations"
TECH = "deterministic simulation with fault injection (seeded search over schedules and faults)"
TRUST = ("Seeded exploration: no violation in the sampled executions, none claimed beyond them. Trusts the simulator "
         "(patched Go runtime scheduler, clock and std seams), the reference model in /verif/sim and, for data races, "
         "Go's race detector run over the same simulated schedules.")


def prop(id, title, statement, over, text, why, files, mech, note, state=(), observe=(), hook=None):
    return dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                             state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                             observe_at=list(observe), hook_needed=hook)), note


