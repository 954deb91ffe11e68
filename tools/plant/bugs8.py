from bugs1 import S, F, W
STALL = '''
s = make((%s), s_g=0.0, sim=dict(solver_type="fully_implicit", max_time_step_attempts=1))
f = s.fluid
f.prev_sw = f.prev_sw + 0.05
sw0, n = f.s_w.clone().ravel(), f.s_w.numel()
R = []
def creep(A, b):
    # an inaccurate linear solve: every update leaves a residual of about TARGET, one per cent less than the one before
    R.append(b.norm().item())
    d = torch.zeros_like(b)
    eps = TARGET * 0.99 ** len(R) / R[0]
    d[n:] = (f.prev_sw.ravel() - sw0) * (1 - eps) / 0.7
    return d
torch.linalg.solve = creep
TARGET = %s
ok = step(s)
check(not (ok and R[-1] > 0.021), f"{ok} {R}")
'''
BUGS = [
dict(id="C24-slow-accept", prop="C24", file=S,
     edits=[("                elif residual_norm < 5 * tol:\n", "                elif residual_norm < 5 * tol * max(1.0, initial_residual_norm):\n")],
     needs="a Newton iteration that stalls, because of inaccurate linear solves, after a partial reduction of a large residual",
     breaks="an unconverged step counts as success",
     demo=STALL % ("1, 1, 1", "0.3")),
dict(id="C24-small-update", prop="C24", file=S,
     edits=[("            prev_residual_norm = residual_norm\n            \n", "            prev_residual_norm = residual_norm\n            if iter_idx > 0 and torch.norm(delta).item() < 1e-9 * torch.norm(self.fluid.pressure).item():\n                return True, iter_idx + 1\n            \n")],
     needs="a linear solve that returns a negligible update while the residual is still large",
     breaks="a vanishing update is taken for convergence",
     demo=STALL % ("1, 1, 1", "5.0")),
dict(id="C24-rms-norm", prop="C24", file=S,
     edits=[("                residual_norm = torch.norm(residual).item()\n", "                residual_norm = torch.norm(residual).item() / num_cells ** 0.5\n")],
     needs="several cells and an iteration that stalls just above the acceptance bound",
     breaks="the acceptance bound grows with the number of cells",
     demo=STALL % ("3, 3, 1", "0.045")),
dict(id="C24-stagnation-verdict", prop="C24", file=S,
     edits=[("                        setattr(self, '_stagnation_count', 0)\n                        return False, iter_idx + 1\n", "                        setattr(self, '_stagnation_count', 0)\n                        return residual_norm < 0.05 * initial_residual_norm, iter_idx + 1\n")],
     needs="an iteration that is stopped for stagnation after most of the residual is gone",
     breaks="the rolled-back, unchanged state is reported as a successful step",
     demo=STALL % ("1, 1, 1", "0.3")),
dict(id="C24-gas-clamp", prop="C24", file=S,
     edits=[("        self.fluid.s_w = self.fluid.s_w.clamp(min=self.fluid.sw_cr).minimum(1.0 - self.fluid.so_r - self.fluid.s_g)\n        \n", "        self.fluid.s_w = self.fluid.s_w.clamp(min=self.fluid.sw_cr).minimum(1.0 - self.fluid.so_r)\n        \n")],
     needs="-", breaks="-", demo="check(False)"),
]
