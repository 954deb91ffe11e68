"""Reference model: float64 numpy statement of the documented discrete scheme.

The model is built from the *configuration* (never from objects of the code under test) and relates an
observed pre-state, an observed new pressure and an observed post-state of one IMPES step.  Allowances for
float32 arithmetic of the implementation are computed alongside every quantity (suffix _e)."""
import math
import numpy as np

MD = 9.869233e-16
G = 9.81
EPS = 6.0e-8           # float32 unit round-off (2**-24)
C = 16.0               # safety factor on rounding allowances
DAY = 86400.0
AX = (0, 1, 2)


def sl(ax, a, b):
    s = [slice(None)] * 3
    s[ax] = slice(a, b)
    return tuple(s)


FIRST = [sl(a, None, -1) for a in AX]
SECOND = [sl(a, 1, None) for a in AX]


class SpecWell:
    def __init__(self, w, spec):
        self.name = w["name"]
        self.type = w["type"]
        self.i, self.j, self.k = w["coordinates"] if "coordinates" in w else (w["i"], w["j"], w["k"])
        if "control" in w:
            self.ctype, self.value = w["control"]["type"], w["control"]["value"]
        else:
            self.ctype, self.value = w["control_type"], w["control_value"]
        self.radius = w["radius"]
        self.phase = w.get("injected_phase", "water")
        self.rate_type = w.get("rate_type", "reservoir")
        self.surface_phase = (w.get("surface_phase") or "liquid").lower()
        self.limits = w.get("limits") or {}
        self.bhp_min = w.get("bhp_min")
        nx, ny, nz = spec.dims
        self.inside = self.i < nx and self.j < ny and self.k < nz
        self.cell = (self.i, self.j, self.k)
        if self.inside:
            dx, dy, dz = spec.cell
            ro = 0.28 * math.sqrt(dx * dx + dy * dy) / 2.0
            k = math.sqrt(spec.kx[self.cell] * spec.ky[self.cell])
            self.wi = 2 * math.pi * k * dz / (math.log(ro / self.radius) + 1e-12)


class Spec:
    def __init__(self, M):
        self.M = M
        self.dims = tuple(M["dims"])
        self.cell = tuple(float(c) for c in M["cell"])
        dims = self.dims
        F = M.get("fields") or {}
        arr = lambda key, default: np.asarray(F[key], dtype=np.float64).reshape(dims) if key in F else np.full(dims, float(default))
        perm, kvf = M.get("perm", 100.0), M.get("kvf", 0.1)
        self.kx = arr("kx", perm) * MD
        self.ky = arr("ky", perm) * MD
        self.kz = arr("kz", perm * kvf) * MD
        dx, dy, dz = self.cell
        self.PV = dx * dy * dz * arr("poro", M.get("poro", 0.2))
        area = (dy * dz / dx, dx * dz / dy, dx * dy / dz)
        self.T = []
        for a, k in zip(AX, (self.kx, self.ky, self.kz)):
            k1, k2 = k[FIRST[a]], k[SECOND[a]]
            self.T.append(2 * k1 * k2 / (k1 + k2 + 1e-30) * area[a])
        f = M.get("fluid", {})
        self.f = f
        self.mu = dict(o=f.get("mu_oil", 1.0) * 1e-3, w=f.get("mu_water", 0.5) * 1e-3, g=f.get("mu_gas", 0.02) * 1e-3)
        self.rho_sc = dict(o=f.get("rho_oil", 850.0), w=f.get("rho_water", 1000.0), g=f.get("rho_gas", 1.0))
        self.comp = dict(o=f.get("c_oil", 1e-5) / 1e6, w=f.get("c_water", 1e-5) / 1e6, g=f.get("c_gas", 1e-3) / 1e6)
        self.c_rock = f.get("c_rock", 1e-5) / 1e6
        self.cf = (self.comp["o"] + self.comp["w"] + self.comp["g"] + self.c_rock) / 3
        rp = f.get("relative_permeability", {})
        g = rp.get
        self.model = g("model", "corey")
        self.nw, self.no, self.ng = g("nw", 2), g("no", 2), g("ng", 2)
        self.ko_end_w, self.ko_end_g = g("ko_end_w", 1.0), g("ko_end_g", 1.0)
        self.now, self.nog = g("now", float(self.no)), g("nog", float(self.ng))
        self.krw_end, self.krg_end = g("krw_end", 1.0), g("krg_end", 1.0)
        self.sw_cr, self.so_r, self.sg_cr = g("sw_cr", 0.2), g("so_r", 0.2), g("sg_cr", 0.0)
        pc = f.get("capillary_pressure", f if "capillary_pressure" not in f else {})
        self.pc_scale, self.pc_exp = pc.get("pc_scale", 0.0), pc.get("pc_exponent", 1.5)
        pg = f.get("capillary_pressure_og", {})
        self.pcg_scale, self.pcg_exp = pg.get("pc_scale", 0.0), pg.get("pc_exponent", 1.5)
        self.pvt = M.get("pvt")
        self.sim = M.get("sim", {})
        self.rate_scale = float(self.sim.get("global_rate_scale", 1.0))
        self.wells = [SpecWell(w, self) for w in M.get("wells", [])]

    # ---- fluid -------------------------------------------------------------------------------
    def tab(self, key, P):
        name = dict(mu_o="mu_o_cP", mu_w="mu_w_cP", mu_g="mu_g_cP", Rs="Rs_m3m3", Rv="Rv_m3m3").get(key, key)
        vals = self.pvt.get(name)
        if vals is None:
            return np.zeros_like(np.asarray(P, dtype=np.float64))
        return np.interp(np.asarray(P, dtype=np.float64) / 1e6, self.pvt["pressure_MPa"], vals)

    def visc(self, P):
        if self.pvt is None:
            o = np.ones(np.shape(P))
            return {a: self.mu[a] * o for a in "wog"}
        return {a: self.tab("mu_" + a, P) * 1e-3 for a in "wog"}

    def rho(self, P):
        if self.pvt is None:
            return {a: self.rho_sc[a] * (1 + self.comp[a] * (P - 1e5)) for a in "wog"}
        bo, bw, bg = self.tab("Bo", P), self.tab("Bw", P), self.tab("Bg", P)
        return dict(w=self.rho_sc["w"] / (bw + 1e-12),
                    o=(self.rho_sc["o"] + self.tab("Rs", P) * self.rho_sc["g"]) / (bo + 1e-12),
                    g=(self.rho_sc["g"] + self.tab("Rv", P) * self.rho_sc["o"]) / (bg + 1e-12))

    def ct(self, P, sw, sg):
        if self.pvt is None:
            return np.full(np.shape(P), self.cf)
        d = 0.1e6
        out = np.full(np.shape(P), self.c_rock)
        so = 1 - sw - sg
        for B, s in (("Bw", sw), ("Bo", so), ("Bg", sg)):
            b = self.tab(B, P)
            out = out + s * (-(self.tab(B, P + d) - self.tab(B, P - d)) / (2 * d) / (b + 1e-12))
        return out

    def ct_e(self, P):
        """float32 allowance of ct: differences of float32 formation factors, knots hit by rounding of P."""
        if self.pvt is None:
            return np.full(np.shape(P), C * EPS * self.cf)
        e = np.zeros(np.shape(P))
        for B in ("Bw", "Bo", "Bg"):
            Pm = np.asarray(self.pvt["pressure_MPa"], float)
            v = np.asarray(self.pvt[B], float)
            slope = np.max(np.abs(np.diff(v) / np.diff(Pm))) if len(v) > 1 else 0.0
            b = self.tab(B, P)
            e = e + C * EPS * (1.2 * b + slope * np.abs(P) / 1e6) / (0.2e6 * b)
        return e

    def kr(self, sw, sg):
        rng = 1 - self.sw_cr - self.so_r
        sn = np.clip((sw - self.sw_cr) / rng, 0, 1)
        krw = self.krw_end * sn ** self.nw
        gn = np.clip((sg - self.sg_cr) / (rng - self.sg_cr + 1e-10), 0, 1)
        krg = self.krg_end * gn ** self.ng
        if self.model == "stone2":
            gn2 = np.clip((sg - self.sg_cr) / (1 - self.sg_cr - self.so_r + 1e-12), 0, 1)
            kro = (self.ko_end_w * (1 - sn) ** self.now + self.ko_end_g * (1 - gn2) ** self.nog
                   - min(self.ko_end_w, self.ko_end_g))
            kro = np.maximum(kro, 0)
        else:
            kro = (1 - sn) ** self.no
        # absolute rounding allowances (saturations carry EPS, divided by the mobile range)
        e = EPS * 4 / max(rng - self.sg_cr, 1e-3)
        krw_e = EPS * 4 * krw + self.krw_end * self.nw * e * np.maximum(sn, e) ** max(self.nw - 1, 0)
        krg_e = EPS * 4 * krg + self.krg_end * self.ng * e * np.maximum(gn, e) ** max(self.ng - 1, 0)
        kro_e = EPS * 8 + e * (max(self.no, self.now) + self.nog) * max(1.0, self.ko_end_w, self.ko_end_g)
        return krw, kro, krg, krw_e, np.full(np.shape(kro), kro_e), krg_e

    def mob(self, P, sw, sg):
        mu = self.visc(P)
        w, o, g, we, oe, ge = self.kr(sw, sg)
        m = dict(w=w / mu["w"], o=o / mu["o"], g=g / mu["g"])
        e = dict(w=we / mu["w"] + EPS * 8 * m["w"], o=oe / mu["o"] + EPS * 8 * m["o"], g=ge / mu["g"] + EPS * 8 * m["g"])
        m["t"] = m["w"] + m["o"] + m["g"]
        e["t"] = e["w"] + e["o"] + e["g"]
        return m, e

    def pc(self, sw):
        sn = np.clip((sw - self.sw_cr) / (1 - self.sw_cr - self.so_r), 0, 1)
        return self._power(self.pc_scale, self.pc_exp, sn)

    def pcg(self, sg):
        sn = np.clip(sg / (1 - self.sw_cr - self.so_r + 1e-12), 0, 1)
        return self._power(self.pcg_scale, self.pcg_exp, sn)

    @staticmethod
    def _power(scale, n, sn):
        base = 1 - sn + 1e-6
        v = scale * base ** (-n)
        return v, np.abs(v) * (EPS * 8 + n * EPS * 4 / base)

    # ---- pressure equation -----------------------------------------------------------------
    def well_modes(self, P_prev, m, me):
        """rate wells with a minimum bottom-hole pressure: 'rate', 'bhp' or None (too close to call)."""
        out = []
        for w in self.wells:
            mode = w.ctype
            if w.inside and w.ctype == "rate" and w.type == "producer" and w.bhp_min is not None:
                rate = self.rate_scale * w.value / DAY
                c = w.cell
                wm = w.wi * m["t"][c]
                req = P_prev[c] - rate / (wm + 1e-30)
                lim = w.bhp_min * 1e6
                slack = C * EPS * (abs(P_prev[c]) + abs(lim)) + (rate / (wm + 1e-30)) * (me["t"][c] / (m["t"][c] + 1e-30) + C * EPS)
                mode = "bhp" if req < lim - slack else "rate" if req > lim + slack else None
            out.append(mode)
        return out

    def pressure_system(self, P, sw, sg, dt, sources=None):
        """Returns dict with dense A (n,n), b, per-row rounding scale, mask of rows that are ambiguous.
        sources: optional list of reservoir volumes (m3/s) replacing the nominal rate of each rate well."""
        dims = self.dims
        n = int(np.prod(dims))
        idx = np.arange(n).reshape(dims)
        m, me = self.mob(P, sw, sg)
        rho = self.rho(P)
        acc = self.PV * self.ct(P, sw, sg) / dt
        acc_e = self.PV * self.ct_e(P) / dt + C * EPS * np.abs(acc)
        A = np.zeros((n, n))
        b = (acc * P).ravel()
        amb = np.zeros(n, bool)
        # accumulation enters as acc*(P_new-P): its error allowance is applied by the caller on |P_new-P|
        coef_e = np.zeros((n, n))
        b_e = np.zeros(n)
        A[np.arange(n), np.arange(n)] += acc.ravel()
        pc, pc_e = self.pc(sw)
        for a in AX:
            if dims[a] < 2:
                continue
            i1, i2 = idx[FIRST[a]].ravel(), idx[SECOND[a]].ravel()
            dp = (P[FIRST[a]] - P[SECOND[a]])
            up = dp > 0
            pick = lambda x: np.where(up, x[FIRST[a]], x[SECOND[a]])
            T = self.T[a]
            t = (T * pick(m["t"])).ravel()
            te = (T * pick(me["t"])).ravel() + C * EPS * t
            np.add.at(A, (i1, i1), t); np.add.at(A, (i2, i2), t)
            np.add.at(A, (i1, i2), -t); np.add.at(A, (i2, i1), -t)
            np.add.at(coef_e, (i1, i2), te); np.add.at(coef_e, (i2, i1), te)
            tie = dp.ravel() == 0
            if tie.any():
                diff = np.zeros(tie.shape, bool)
                for ph in "wog":
                    x1, x2 = m[ph][FIRST[a]].ravel(), m[ph][SECOND[a]].ravel()
                    diff |= np.abs(x1 - x2) > 1e-6 * (np.abs(x1) + np.abs(x2))
                bad = tie & diff
                amb[i1[bad]] = True
                amb[i2[bad]] = True
            if a == 2 and dims[2] > 1:
                gf = (T * G * self.cell[2] * sum(pick(m[q]) * pick(rho[q]) for q in "wog")).ravel()
                ge = (T * G * self.cell[2] * sum(pick(me[q]) * pick(rho[q]) for q in "wog")).ravel() + C * EPS * np.abs(gf)
                np.add.at(b, i1, -gf); np.add.at(b, i2, gf)
                np.add.at(b_e, i1, ge); np.add.at(b_e, i2, ge)
            if self.pc_scale > 0:
                pf = (T * pick(m["o"]) * (pc[SECOND[a]] - pc[FIRST[a]])).ravel()
                pe = (T * (pick(me["o"]) * np.abs(pc[SECOND[a]] - pc[FIRST[a]]) + pick(m["o"]) * (pc_e[FIRST[a]] + pc_e[SECOND[a]]))).ravel()
                np.add.at(b, i2, pf); np.add.at(b, i1, -pf)
                np.add.at(b_e, i1, pe); np.add.at(b_e, i2, pe)
        modes = self.well_modes(P, m, me)
        for q, (w, mode) in enumerate(zip(self.wells, modes)):
            if not w.inside:
                continue
            c = idx[w.cell]
            if mode is None:
                amb[c] = True
            elif mode == "rate":
                s = self.rate_scale * w.value / DAY * (1 if w.type == "injector" else -1)
                if sources is not None and sources[q] is not None:
                    s = sources[q]
                b[c] += s
                b_e[c] += C * EPS * abs(s)
            else:
                p = (w.bhp_min if w.ctype == "rate" else w.value) * 1e6
                wm = w.wi * m["t"][w.cell]
                wme = w.wi * me["t"][w.cell] + C * EPS * wm
                A[c, c] += wm
                b[c] += wm * p
                coef_e[c, c] += wme
                b_e[c] += C * EPS * wm * abs(p)
        return dict(A=A, b=b, coef_e=coef_e, b_e=b_e, amb=amb, acc=acc.ravel(), acc_e=acc_e.ravel(), modes=modes, mob=m, mob_e=me,
                    wells=self.wells)

    def pressure_residual(self, P, P_new, sw, sg, dt, tol_solver, f32_solve=True, sources=None):
        """(residual, allowance, ambiguous rows, system). tol_solver bounds sqrt(r D^-1 r) of the linear solver."""
        S = self.pressure_system(P, sw, sg, dt, sources)
        x = P_new.ravel()
        r = S["A"] @ x - S["b"]
        d = np.diag(S["A"])
        absA = np.abs(S["A"])
        # rounding of the unknown (float32 result) and of the coefficients; differences matter for
        # coefficient errors (a relative error of a conductance acts on the pressure difference, but the
        # float32 diagonal is a rounded sum, which acts on the full pressure)
        allow = S["b_e"] + S["acc_e"] * np.abs(x - P.ravel())
        allow = allow + EPS * (absA @ np.abs(x)) * (8.0 if f32_solve else 3.0)
        diffs = np.abs(x[None, :] - x[:, None])
        allow = allow + (S["coef_e"] * diffs).sum(axis=1)
        # a float32 diagonal is a rounded sum of up to 8 terms
        allow = allow + 4 * EPS * d * np.abs(x) + 4 * EPS * np.abs(S["b"])
        ndx = np.arange(len(x))
        off = S["coef_e"][ndx, ndx]
        allow = allow + off * np.abs(x - P.ravel()) + off * 1e5
        allow = allow + tol_solver * np.sqrt(np.maximum(d, 0)) * 2
        return r, allow, S["amb"], S

    # ---- wells in the transport equation ------------------------------------------------------
    def cell_pvt(self, P, c):
        p = np.array(P[c])
        return {k: float(self.tab(k, p)) for k in ("Bo", "Bw", "Bg", "Rs", "Rv")}

    def well_flows(self, P_prev, sw, sg, P_new, dt):
        """Per well: dict(q total (+ into reservoir), w, g, o per phase m3/s, e allowance, mode, choke, surface...)."""
        m0, me0 = self.mob(P_prev, sw, sg)
        modes = self.well_modes(P_prev, m0, me0)
        m, me = self.mob(P_new, sw, sg)
        out = []
        for w, mode in zip(self.wells, modes):
            d = dict(well=w, mode=mode, q=0.0, w=0.0, g=0.0, o=0.0, e=0.0, amb=(mode is None), choked=False, limited=False,
                     surf=None, comp=dict(oil_in=0.0, gas_in=0.0, oil_out=0.0, gas_out=0.0), inside=w.inside)
            out.append(d)
            if not w.inside or mode is None:
                continue
            c = w.cell
            mt = m["t"][c] + 1e-10
            fr = {a: m[a][c] / mt for a in "wog"}
            fe = max((me[a][c] + fr[a] * me["t"][c]) / mt for a in "wog") + C * EPS
            d["fr"] = fr
            d["fe"] = fe
            B = self.cell_pvt(P_new, c) if self.pvt is not None else None
            base = w.value * self.rate_scale / DAY
            PV = self.PV[c]
            S_w, S_g = sw[c], sg[c]
            win_up = 1 - self.so_r - S_g - S_w
            if w.type == "injector":
                if w.ctype == "rate":
                    q = base
                    if w.rate_type == "surface" and B is not None:
                        q *= B["Bg"] if w.phase == "gas" else B["Bw"]
                    d["asked"] = q
                    full = q * dt / PV
                    up = max(0.0, win_up)
                    alpha = 1.0
                    if full > 0:
                        alpha = max(0.0, min(1.0, up / full)) if full > 0 else 1.0
                        d["near_choke"] = abs(up - full) < 1e-5
                    elif full < 0:
                        dn = (S_g - self.sg_cr) if w.phase == "gas" else (S_w - self.sw_cr)
                        alpha = max(0.0, min(1.0, dn / -full))
                    d["choked"] = alpha < 1
                    q *= alpha
                    d["e"] += C * EPS * abs(q) + (C * EPS * PV / dt if d["choked"] else 0)
                else:
                    q = -w.wi * m["t"][c] * (P_new[c] - w.value * 1e6)
                    d["e"] += w.wi * me["t"][c] * abs(P_new[c] - w.value * 1e6) + w.wi * m["t"][c] * C * EPS * (abs(P_new[c]) + abs(w.value * 1e6)) * 0.5
                d["q"] = q
                d["g" if w.phase == "gas" else "w"] = q
                if B is not None and w.phase == "gas":
                    s = max(q, 0.0) / B["Bg"]
                    d["comp"]["gas_in"] = s * dt
                    d["comp"]["oil_in"] = s * B["Rv"] * dt
            else:
                co = cw = cg = None
                if B is not None:
                    co = fr["o"] / B["Bo"] + fr["g"] * B["Rv"] / B["Bg"]
                    cw = fr["w"] / B["Bw"]
                    cg = fr["g"] / B["Bg"] + fr["o"] * B["Rs"] / B["Bo"]
                if w.ctype == "bhp" or mode == "bhp":
                    p = (w.bhp_min if w.ctype == "rate" else w.value) * 1e6
                    q = -w.wi * m["t"][c] * (P_new[c] - p)
                    d["e"] += w.wi * me["t"][c] * abs(P_new[c] - p) + w.wi * m["t"][c] * C * EPS * (abs(P_new[c]) + abs(p)) * 0.5
                else:
                    q = -base
                    if w.rate_type == "surface" and B is not None:
                        if w.surface_phase == "oil":
                            q = -base / max(co, 1e-12)
                        elif w.surface_phase == "water":
                            q = -base * B["Bw"] / max(fr["w"], 1e-8)
                        elif w.surface_phase == "gas":
                            q = -base / max(cg, 1e-12)
                        else:
                            q = -base / max(co + cw, 1e-12)
                    d["e"] += C * EPS * abs(q) + abs(q) * fe * 4 / max(min(x for x in (1.0,) + tuple(v for v in fr.values() if v > 1e-6)), 1e-6) * (1 if w.rate_type == "surface" else 0)
                d["asked"] = q
                if w.ctype == "rate" and B is not None:
                    alpha = 1.0
                    for ph, dn, up in (("w", S_w - self.sw_cr, win_up), ("g", S_g - self.sg_cr, win_up)):
                        ds = q * fr[ph] * dt / PV
                        room = max(0.0, dn) if ds < 0 else max(0.0, up)
                        if ds != 0 and abs(ds) > 1e-12:
                            alpha = min(alpha, room / abs(ds))
                    alpha = max(0.0, min(1.0, alpha))
                    d["choked"] = alpha < 1
                    q *= alpha
                    lims = [(lim, den) for key, lim, den in (("wopr", w.limits.get("wopr"), co), ("wlpr", w.limits.get("wlpr"), cw),
                                                             ("wgpr", w.limits.get("wgpr"), cg),
                                                             ("liqr", w.limits.get("liqr"), (co or 0) + (cw or 0)))
                            if lim is not None and den > 0]
                    if lims:
                        mx = min(l / DAY / den for l, den in lims)
                        if -q > mx:
                            q = -mx
                            d["limited"] = True
                    d["surf"] = dict(oil=max(-q, 0) * co * DAY, water=max(-q, 0) * cw * DAY, gas=max(-q, 0) * cg * DAY, liquid=max(-q, 0) * (co + cw) * DAY)
                    if d["choked"]:
                        d["e"] += C * EPS * PV / dt / max(min([v for v in (fr["w"], fr["g"]) if v > 1e-9] + [1.0]), 1e-9)
                d["q"] = q
                for ph in "wog":
                    d[ph] = q * fr[ph]
                d["e"] += abs(q) * fe
                if B is not None:
                    d["comp"]["oil_out"] = max(-q, 0) * co * dt
                    d["comp"]["gas_out"] = max(-q, 0) * cg * dt
        return out

    # ---- transport -------------------------------------------------------------------------------
    def transport(self, sw, sg, P_new, flows, dt):
        """Unlimited saturation changes of one step, their allowances and the ambiguous cells."""
        dims = self.dims
        m, me = self.mob(P_new, sw, sg)
        rho = self.rho(P_new)
        div = {a: np.zeros(dims) for a in "wg"}
        err = {a: np.zeros(dims) for a in "wg"}
        amb = np.zeros(dims, bool)
        pcg, pcg_e = self.pcg(sg)
        face = {}
        for a in AX:
            if dims[a] < 2:
                continue
            f1, f2 = FIRST[a], SECOND[a]
            dp = P_new[f1] - P_new[f2]
            up = dp > 0
            for ph in "wg":
                mm, ee = np.where(up, m[ph][f1], m[ph][f2]), np.where(up, me[ph][f1], me[ph][f2])
                pot = dp.copy()
                pe = EPS * 2 * np.abs(dp)
                if a == 2:
                    gr = G * 0.5 * (rho[ph][f1] + rho[ph][f2]) * self.cell[2]
                    pot = pot + gr
                    pe = pe + C * EPS * np.abs(gr)
                if ph == "g" and self.pcg_scale > 0:
                    pot = pot - (pcg[f2] - pcg[f1])
                    pe = pe + pcg_e[f1] + pcg_e[f2]
                q = self.T[a] * mm * pot
                e = self.T[a] * (ee * np.abs(pot) + mm * pe) + C * EPS * np.abs(q)
                face[(a, ph)] = q
                div[ph][f1] += q
                div[ph][f2] -= q
                err[ph][f1] += e
                err[ph][f2] += e
                tie = (dp == 0) & (np.abs(m[ph][f1] - m[ph][f2]) > 1e-6 * (m[ph][f1] + m[ph][f2])) & (pot != 0)
                if tie.any():
                    amb[f1] |= tie
                    amb[f2] |= tie
        src = {a: np.zeros(dims) for a in "wg"}
        for d in flows:
            if not d["inside"]:
                continue
            c = d["well"].cell
            if d["amb"]:
                amb[c] = True
                continue
            for ph in "wg":
                src[ph][c] += d[ph]
                err[ph][c] += d["e"] if d[ph] != 0 or ph == "w" else d["e"]
        k = dt / self.PV
        dSw, dSg = k * (src["w"] - div["w"]), k * (src["g"] - div["g"])
        ew = 1.2e-6 + k * err["w"] + C * EPS * np.abs(dSw)
        eg = 1.2e-6 + k * err["g"] + C * EPS * np.abs(dSg)
        return dict(dSw=dSw, dSg=dSg, ew=ew, eg=eg, amb=amb, face=face, src=src)

    def free(self, sw, sg, t, margin=2e-6):
        """Cells whose unlimited target stays inside the saturation window (so nothing is cut there)."""
        a, b = sw + t["dSw"], sg + t["dSg"]
        m_w = margin + t["ew"]
        m_g = margin + t["eg"]
        lim_w = (a >= self.sw_cr - 0 + m_w * (t["dSw"] < 0)) | (np.abs(t["dSw"]) <= t["ew"])
        lim_g = (b >= self.sg_cr + m_g * (t["dSg"] < 0)) | (np.abs(t["dSg"]) <= t["eg"])
        tot = (a + b <= 1 - self.so_r - (m_w + m_g) * ((t["dSw"] + t["dSg"]) > 0)) | ((np.abs(t["dSw"]) <= t["ew"]) & (np.abs(t["dSg"]) <= t["eg"]))
        return lim_w & lim_g & tot

    def drift(self, P, sw, sg, dt):
        """Pressure error that rounding of a float32 matrix diagonal can cause (one unit round-off per term)."""
        acc = self.PV * self.ct(P, sw, sg) / dt
        m, _ = self.mob(P, sw, sg)
        Tm = max([float((T * m["t"].max()).max()) for T in self.T if T.size] + [0.0])
        return 8 * EPS * float(np.max(np.abs(P))) * (1 + Tm / float(acc.min()))
