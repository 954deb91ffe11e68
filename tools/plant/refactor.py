"""refactor.py [--props C01,..] [--sets a,b] [--jobs n]: applies behaviour-preserving rewrites to a copy of /repo, runs the stable tests
and the checks; anything but exit 0 is a false alarm."""
import os, re, subprocess, sys, tempfile, shutil, time, json
a = sys.argv[1:]
def opt(n, d):
    if n in a:
        i = a.index(n); v = a[i + 1]; del a[i:i + 2]; return v
    return d
props = opt("--props", ",".join(f"C{i:02d}" for i in range(1, 25))).split(",")
sets = opt("--sets", "a,b").split(",")
S, F, W, P = "src/simulator/simulation.py", "src/simulator/fluid.py", "src/simulator/well.py", "src/simulator/pvt.py"
C, A, R, T, V = "src/solver/classical_amg.py", "src/solver/pressure_amg.py", "src/rl_env.py", "src/plotting/plotter.py", "src/output/vtk_writer.py"


def helper_a(w):
    s = w[S]
    # phase mobilities and upwinding as helpers, different order of evaluation
    blk = re.search(r"        # Вязкости фаз при новом давлении.*?mob_t = mob_w \+ mob_o \+ mob_g\n", s, re.S).group(0)
    s = s.replace(blk, "        mob_w, mob_o, mob_g = self._mobilities(P_new, (kro, krw, krg))\n        mob_t = mob_o + mob_g + mob_w\n")
    blk = re.search(r"        # Вязкости фаз из PVT \(если доступны\) при P_prev.*?mob_t = mob_w \+ mob_o \+ mob_g\n", s, re.S).group(0)
    s = s.replace(blk, "        mob_w, mob_o, mob_g = self._mobilities(P_prev, (kro, krw, krg))\n        mob_t = mob_g + mob_w + mob_o\n")
    blk = re.search(r"        mob_w_x = torch\.where\(dp_x > 0, mob_w\[:-1.*?mob_g\[:,:,1:\]\)\n", s, re.S).group(0)
    s = s.replace(blk, "        mob_g_x, mob_g_y, mob_g_z = self._upstream(mob_g, dp_x, dp_y, dp_z)\n        mob_w_x, mob_w_y, mob_w_z = self._upstream(mob_w, dp_x, dp_y, dp_z)\n", 1)
    blk = re.search(r"        div_w = torch\.zeros_like\(S_w_old\).*?div_g\[:, :, 1:\]  -= flow_g_z\n", s, re.S).group(0)
    s = s.replace(blk, "        div_w = self._divergence(S_w_old, flow_w_x, flow_w_y, flow_w_z)\n        div_g = self._divergence(S_g_old, flow_g_x, flow_g_y, flow_g_z)\n")
    s = s.replace("    def _impes_saturation_step(", '''    def _mobilities(self, P, kr):
        fl = self.fluid
        if fl.pvt:
            visc = [fl._eval_pvt(P, key) * 1e-3 for key in ('mu_o', 'mu_w', 'mu_g')]
        else:
            visc = [fl.mu_oil, fl.mu_water, fl.mu_gas]
        o, wat, g = (k / m for k, m in zip(kr, visc))
        return wat, o, g

    @staticmethod
    def _upstream(m, px, py, pz):
        out = []
        for axis, pot in enumerate((px, py, pz)):
            n = m.shape[axis]
            first, second = m.narrow(axis, 0, n - 1), m.narrow(axis, 1, n - 1)
            out.append(torch.where(pot <= 0, second, first))
        return out

    @staticmethod
    def _divergence(like, *flows):
        res = torch.zeros_like(like)
        for axis in (2, 1, 0):
            n = like.shape[axis]
            res.narrow(axis, 1, n - 1).sub_(flows[axis])
            res.narrow(axis, 0, n - 1).add_(flows[axis])
        return res

    def _impes_saturation_step(''', 1)
    # retry loop as snapshot / restore helpers
    s = s.replace('''            # если не сошлось, уменьшаем шаг
            print("  IMPES не сошелся, уменьшаем dt")
            current_dt /= dt_reduction_factor
            attempts_left -= 1
''', '''            # если не сошлось, уменьшаем шаг
            attempts_left = attempts_left - 1
            current_dt = current_dt / dt_reduction_factor
            print("  IMPES не сошелся, уменьшаем dt")
''')
    # solver parameters in a helper, one branch for both precisions
    blk = re.search(r"        # 6\. Первая попытка решения CG\n.*?        P_new = P_new_flat\.view\(self\.reservoir\.dimensions\)\n        return P_new, converged\n", s, re.S).group(0)
    s = s.replace(blk, '''        use64 = bool(self.sim_params.get('pressure_float64', False))

        def attempt(tol, iters):
            if not use64:
                return self._solve_pressure_cg_pytorch(A, Q, M_diag=A_diag, tol=tol, max_iter=iters)
            big = torch.sparse_coo_tensor(A.indices(), A.values().double(), A.size(), device=A.device).coalesce()
            sol, ok = self._solve_pressure_cg_pytorch(big, Q.double(), M_diag=A_diag.double(), tol=tol, max_iter=iters)
            return sol.float(), ok

        for factor, more in ((1.0, 1), (10.0, 4)):
            flat, converged = attempt(cg_tol_base * factor, cg_max_iter_base * more)
            if converged:
                break
        return flat.reshape(self.reservoir.dimensions), converged
''')
    # PVT of one cell
    s = re.sub(r"float\(self\.fluid\._eval_pvt\(P_new, '(\w+)'\)\[i, j, k\]\)", r"self._pvt_cell(P_new, '\1', i, j, k)", s)
    s = s.replace("    def _impes_pressure_step(", '''    def _pvt_cell(self, P, key, i, j, k):
        return self.fluid._eval_pvt(P, key)[i, j, k].item()

    def _impes_pressure_step(''', 1)
    s = s.replace("q_total *= (1 if well.type == 'injector' else -1)\n", "q_total = q_total if well.type == 'injector' else -q_total\n")
    s = s.replace("q_wells, well_bhp_terms = self._calculate_well_terms(mob_t, P_prev)", "sources = self._calculate_well_terms(mob_t, P_prev)\n        q_wells, well_bhp_terms = sources[0], sources[1]")
    s = s.replace("        diag_vals = torch.zeros(N, device=self.device)\n        diag_vals.scatter_add_(0, rows, -vals)\n        diag_vals += acc_term\n        diag_vals += well_bhp_terms\n",
                  "        diag_vals = (acc_term + well_bhp_terms).clone()\n        diag_vals.index_add_(0, rows, vals.neg())\n")
    w[S] = s
    f = w[F]
    f = f.replace("        kro = self.calc_oil_kr(s_w, s_g)\n        krw = self.calc_water_kr(s_w)\n        \n        # Если газонасыщенность не передана, используем сохраненное значение\n        if s_g is None:\n            s_g = self.s_g\n",
                  "        gas = self.s_g if s_g is None else s_g\n        krw = self.calc_water_kr(s_w)\n        kro = self.calc_oil_kr(s_w, gas)\n        s_g = gas\n")
    f = f.replace("        pc = self.pc_scale * (1.0 - s_norm + 1e-6) ** (-self.pc_exponent)\n", "        base = (1.0 - s_norm) + 1e-6\n        pc = self.pc_scale / base.pow(self.pc_exponent)\n")
    f = f.replace("            return (self.rho_oil_ref + rs * self.rho_gas_ref) / (bo + 1e-12)", "            mass = rs * self.rho_gas_ref + self.rho_oil_ref\n            return mass / (bo + 1e-12)")
    w[F] = f
    w[P] = w[P].replace('''        return {
            "Bo": self._interp(p, self.P, self.Bo),
            "Bw": self._interp(p, self.P, self.Bw),
            "Bg": self._interp(p, self.P, self.Bg),
            "mu_o": self._interp(p, self.P, self.mu_o),
            "mu_w": self._interp(p, self.P, self.mu_w),
            "mu_g": self._interp(p, self.P, self.mu_g),
            "Rs": self._interp(p, self.P, self.Rs),
            "Rv": self._interp(p, self.P, self.Rv),
        }
''', '''        out = {}
        for key in ("Rv", "Rs", "mu_g", "mu_w", "mu_o", "Bg", "Bw", "Bo"):
            out[key] = self._interp(p, self.P, getattr(self, key))
        return out
''')
    w[W] = w[W].replace("        ro = 0.28 * ((dx**2 + dy**2)**0.5) / 2\n", "        ro = 0.14 * math.hypot(dx, dy)\n").replace(
        "permeability = math.sqrt(float(k_x[i, j, k])) * math.sqrt(float(k_y[i, j, k]))", "permeability = math.sqrt(float(k_x[i, j, k])) * float(k_y[i, j, k]) ** 0.5").replace(
        "        if not self.wells:\n            return torch.tensor([], dtype=torch.long)\n        idx_list = [w.cell_index_flat for w in self.wells]\n        return torch.tensor(idx_list, dtype=torch.long)",
        "        return torch.tensor([w.cell_index_flat for w in self.get_wells()], dtype=torch.long)")


def helper_b(w):
    r = w[R]
    blk = re.search(r"        # Переинициализируем объекты\n.*?device=self\.device,\n        \)\n\n        self\._step_count = 0\n", r, re.S).group(0)
    r = r.replace(blk, "        self._build(cfg)\n        self._step_count = 0\n")
    blk = re.search(r"        self\.reservoir = Reservoir\(cfg.*?device=self\.device,\n        \)\n", r, re.S).group(0)
    r = r.replace(blk, "        self._build(cfg)\n", 1)
    r = r.replace("    def _get_observation(self)", "    def _build(self, cfg):\n" + blk + "\n    def _get_observation(self)", 1)
    r = r.replace("        return torch.sum(phi * s_o * rho_o * cell_vol)", "        return (cell_vol * (phi * s_o) * rho_o).sum()")
    r = r.replace("        obs = np.concatenate([p, sw]).astype(np.float32)\n        return obs", "        out = np.empty(p.size + sw.size, dtype=np.float32)\n        out[:p.size] = p\n        out[p.size:] = sw\n        return out")
    r = r.replace("                delta = base_rate * 0.2  # изменение до ±20%\n                well.control_value = float(base_rate + delta * a)", "                well.control_value = float(base_rate + base_rate * 0.2 * a)")
    w[R] = r
    t = w[T]
    t = t.replace("        if self.reservoir.nz > 1:\n            stds = [float(np.std(saturation[:, :, k])) for k in range(self.reservoir.nz)]\n            z_slice_idx = int(np.argmax(stds))\n        else:\n            z_slice_idx = 0\n",
                  "        z_slice_idx, best = 0, float(np.std(saturation[:, :, 0]))\n        for k in range(1, saturation.shape[2]):\n            spread = float(np.std(saturation[:, :, k]))\n            if spread > best:\n                z_slice_idx, best = k, spread\n")
    t = t.replace("        im1 = ax1.imshow(p_slice.T / 1e6, cmap='jet', origin='lower', aspect='auto')\n        ax1.set_title", "        im1 = ax1.imshow(np.transpose(p_slice) / 1e6, cmap='jet', origin='lower', aspect='auto')\n        ax1.set_title")
    t = t.replace("plt.savefig(filename)", "fig.savefig(filename)")
    w[T] = t
    w[V] = w[V].replace("x = np.arange(nx + 1) * dx", "x = np.array([i * dx for i in range(nx + 1)])").replace("pressure_mpa.reshape((nx, ny, nz), order='F')", "pressure_mpa.copy(order='F').reshape((nx, ny, nz), order='F')")
    c = w[C]
    c = c.replace("    # Максимум score среди соседей", "    assert score.numel() == n\n    # Максимум score среди соседей")
    c = c.replace("    coarse_mask = (cf == 0)\n    F_mask = ~coarse_mask\n", "    F_mask = (cf != 0)\n    coarse_mask = torch.logical_not(F_mask)\n")
    c = c.replace('''    strong_C_mask = strong & off_mask_global & coarse_mask[col] & F_mask[row_idx]
    weak_C_mask = (~strong) & off_mask_global & coarse_mask[col] & F_mask[row_idx]
    strong_F_mask = strong & off_mask_global & F_mask[col] & F_mask[row_idx]
    weak_F_mask = (~strong) & off_mask_global & F_mask[col] & F_mask[row_idx]
''', '''    def edges(kind, target):
        return kind & target[col] & F_mask[row_idx] & off_mask_global

    weak = ~strong
    weak_F_mask, strong_F_mask = edges(weak, F_mask), edges(strong, F_mask)
    weak_C_mask, strong_C_mask = edges(weak, coarse_mask), edges(strong, coarse_mask)
''')
    c = c.replace("    F_weak_sum = torch.zeros(n, device=device, dtype=dtype)\n    if weak_F_mask.any():\n        F_weak_sum.scatter_add_(0, row_idx[weak_F_mask], (-val[weak_F_mask]).to(dtype))\n",
                  "    F_weak_sum = torch.zeros(n, device=device, dtype=dtype).index_add_(0, row_idx[weak_F_mask], -val[weak_F_mask])\n")
    w[C] = c
    p = w[A]
    p = p.replace('''        amg = ClassicalAMG(
            A_csr64,
            theta=theta,
            max_levels=max_levels,
            coarsest_size=coarsest_size,
        )
''', '''        amg = build()
''').replace("    amg = _AMG_CACHE.get(cache_key)\n", "    def build():\n        return ClassicalAMG(A_csr64, theta=theta, max_levels=max_levels, coarsest_size=coarsest_size)\n\n    amg = _AMG_CACHE.get(cache_key)\n")
    w[A] = p
    s = w[S]
    s = s.replace("        num_steps = int(total_time_days / time_step_days + 1e-9)\n", "        ratio = total_time_days / time_step_days\n        num_steps = int(ratio + 1e-9)\n")
    s = s.replace("            if (i + 1) % save_interval == 0 and save_interval < num_steps:\n", "            done = i + 1\n            if num_steps > save_interval and done % save_interval == 0:\n")
    s = s.replace("        frames = [imageio.imread(image_path) for image_path in images]\n        size = [max((f.shape[d] for f in frames), default=0) for d in (0, 1)]\n",
                  "        frames = list(map(imageio.imread, images))\n        heights = [f.shape[0] for f in frames]\n        widths = [f.shape[1] for f in frames]\n        size = [max(heights, default=0), max(widths, default=0)]\n")
    s = s.replace("        rs_old = torch.dot(r, z)\n        if 0", "        rs_old = (r * z).sum()\n        if 0").replace("            rs_new = torch.dot(r, z)\n", "            rs_new = (r * z).sum()\n")
    s = s.replace("        dSw_sub = dSw / N\n        dSg_sub = dSg / N\n", "        share = 1.0 / N\n        dSw_sub = dSw * share\n        dSg_sub = dSg * share\n")
    w[S] = s


def noise(w):
    """One unit in the last place, up or down depending on value and position: what another order of the same operations may do."""
    s = w[S]
    s = s.replace("class Simulator", "def _nz(x):\n    return x * (1 + 1.2e-7 * torch.sin(x * 12345.678 + torch.arange(x.numel(), device=x.device, dtype=x.dtype).view(x.shape)))\n\n\nclass Simulator", 1)
    s = s.replace("        mob_t = mob_w + mob_o + mob_g\n", "        mob_w, mob_o, mob_g = _nz(mob_w), _nz(mob_o), _nz(mob_g)\n        mob_t = mob_w + mob_o + mob_g\n")
    s = s.replace("            if converged:\n                # Обновляем давление и", "            if converged:\n                P_new = _nz(P_new)\n                # Обновляем давление и")
    s = s.replace("        # 4. Дивергенция\n", "        flow_w_x, flow_w_y, flow_w_z, flow_g_x, flow_g_y, flow_g_z = [_nz(f) for f in (flow_w_x, flow_w_y, flow_w_z, flow_g_x, flow_g_y, flow_g_z)]\n")
    s = s.replace("        diag_vals += acc_term\n", "        diag_vals += _nz(acc_term)\n")
    w[S] = s


SETS = {"n": noise, "a": helper_a, "b": helper_b}
for name in sets:
    D = tempfile.mkdtemp(prefix="rf-")
    try:
        subprocess.run(f"cp -a /repo {D}/repo && mkdir {D}/verif && cp -a /verif/mc /verif/check.sh /verif/MANIFEST.json /verif/known-findings.txt /verif/properties.jsonl {D}/verif/", shell=True, check=True)
        w = {f: open(f"{D}/repo/{f}").read() for f in (S, F, W, P, C, A, R, T, V)}
        old = dict(w)
        SETS[name](w)
        for f in w:
            open(f"{D}/repo/{f}", "w").write(w[f])
        print("set", name, {f.split("/")[-1]: subprocess.run(["git", "-C", D + "/repo", "diff", "--numstat", f], capture_output=True, text=True).stdout.split()[:2] for f in w if w[f] != old[f]}, flush=True)
        for p in props:
            t = time.time()
            r = subprocess.run(["timeout", "1000", "bash", f"{D}/verif/check.sh", p, "quick"], capture_output=True, text=True, env=dict(os.environ, VERIF_REPO=D + "/repo", VERIF_SEED="1", VERIF_TIER="quick"))
            print(f"  {p} rc={r.returncode} {time.time()-t:.0f}s", "" if r.returncode == 0 else "\n".join(l[:400] for l in r.stdout.splitlines() if "violated" in l) + r.stderr[-500:], flush=True)
    finally:
        shutil.rmtree(D, ignore_errors=True)
