From bd159f2d3ee9985d25d6f208ffe962f677a0e5f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:24 +0000
Subject: [PATCH 01/31] fix: harmonic-mean transmissibility epsilon was
 comparable to permeability in SI units

1 mD is about 1e-15 m^2, so adding 1e-15 to the denominator reduced the
transmissibility by a third at 1 mD (and by 1% at 50 mD).
---
 src/simulator/simulation.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/simulator/simulation.py b/src/simulator/simulation.py
index 6fc5c70..e09785a 100644
--- a/src/simulator/simulation.py
+++ b/src/simulator/simulation.py
@@ -62,15 +62,15 @@ class Simulator:
             
             # Расчет проводимостей
             for i in range(nx-1):
-                k_harmonic = 2 * k_x[i, :, :] * k_x[i+1, :, :] / (k_x[i, :, :] + k_x[i+1, :, :] + 1e-15)
+                k_harmonic = 2 * k_x[i, :, :] * k_x[i+1, :, :] / (k_x[i, :, :] + k_x[i+1, :, :] + 1e-30)
                 self.T_x[i, :, :] = k_harmonic * dy * dz / dx
             
             for j in range(ny-1):
-                k_harmonic = 2 * k_y[:, j, :] * k_y[:, j+1, :] / (k_y[:, j, :] + k_y[:, j+1, :] + 1e-15)
+                k_harmonic = 2 * k_y[:, j, :] * k_y[:, j+1, :] / (k_y[:, j, :] + k_y[:, j+1, :] + 1e-30)
                 self.T_y[:, j, :] = k_harmonic * dx * dz / dy
             
             for k in range(nz-1):
-                k_harmonic = 2 * k_z[:, :, k] * k_z[:, :, k+1] / (k_z[:, :, k] + k_z[:, :, k+1] + 1e-15)
+                k_harmonic = 2 * k_z[:, :, k] * k_z[:, :, k+1] / (k_z[:, :, k] + k_z[:, :, k+1] + 1e-30)
                 self.T_z[:, :, k] = k_harmonic * dx * dy / dz
         
         # Объем пористой среды для расчетов IMPES
-- 
2.43.0


From 72dce8c119afb3c0627690168a679a0989a6fd59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:54 +0000
Subject: [PATCH 02/31] fix: Peaceman well index ignored the reservoir and used
 mD without conversion

The index assumed 1 m cells, no thickness and a permeability of 100 in mD used
as if it were SI, so pressure-controlled wells acted as an (almost) infinite
conductance: their flow in the saturation step was float rounding noise, and
the index was negative for radii above 0.198 m. Use cell size and permeability
of the reservoir.
---
 src/simulator/well.py | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/src/simulator/well.py b/src/simulator/well.py
index 8c51591..66c9dab 100644
--- a/src/simulator/well.py
+++ b/src/simulator/well.py
@@ -7,7 +7,7 @@ class Well:
     Класс для представления скважины в резервуаре.
     """
     
-    def __init__(self, name, well_type, i, j, k, radius, control_type, control_value, reservoir_dimensions, injected_phase: str = 'water', rate_type: str = 'reservoir', surface_phase: str = None, limits: dict = None, bhp_min: float = None):
+    def __init__(self, name, well_type, i, j, k, radius, control_type, control_value, reservoir_dimensions, injected_phase: str = 'water', rate_type: str = 'reservoir', surface_phase: str = None, limits: dict = None, bhp_min: float = None, grid_size=None, permeability: float = None):
         """
         Инициализирует скважину.
         
@@ -19,6 +19,8 @@ class Well:
             control_type: Тип контроля ('rate' или 'bhp')
             control_value: Значение контроля (дебит в м³/день или забойное давление в МПа)
             reservoir_dimensions: Размеры резервуара (nx, ny, nz)
+            grid_size: Размеры ячейки (dx, dy, dz) в метрах
+            permeability: Горизонтальная проницаемость ячейки в м²
         """
         self.name = name
         self.type = well_type
@@ -39,16 +41,15 @@ class Well:
         self.cell_index = (i, j, k)
         self.cell_index_flat = i + j * nx + k * nx * ny
         
-        # Определяем реальные размеры ячейки из reservoir_dimensions
-        # Для Peaceman нужно знать dx, dy. Полагаем кубические ячейки и берём 1 м, если размеры не переданы.
-        dx = dy = 1.0
+        # Для Peaceman нужно знать dx, dy, dz. Берём кубические ячейки 1 м, если размеры не переданы.
+        dx, dy, dz = (float(d) for d in grid_size) if grid_size is not None else (1.0, 1.0, 1.0)
         
         # Эффективный радиус ячейки для модели Писмана
         ro = 0.28 * ((dx**2 + dy**2)**0.5) / 2
         
-        # Индекс скважины по модели Писмана (k заменим позже при гетерогенности)
-        k_h_assumed = 100.0  # мД
-        self.well_index = 2 * math.pi * k_h_assumed / (math.log(ro / radius) + 1e-12)
+        # Индекс скважины по модели Писмана в СИ (м³); без данных о ячейке — 100 мД
+        k_h = permeability if permeability is not None else 100.0 * 9.869233e-16
+        self.well_index = 2 * math.pi * k_h * dz / (math.log(ro / radius) + 1e-12)
         # Диагностика последнего шага
         self.last_q_total = None           # м3/с (знак: + инжекция, - отбор)
         self.last_surface_rates = {}       # {'oil','water','gas','liquid'} в м3/сутки
@@ -91,6 +92,12 @@ class WellManager:
             else:
                 raise ValueError(f"Неверный формат управления скважиной: {w}")
             
+            # Проницаемость ячейки скважины (м²) для индекса Писмана
+            permeability = None
+            if 0 <= i < reservoir.nx and 0 <= j < reservoir.ny and 0 <= k < reservoir.nz:
+                k_x, k_y, _ = reservoir.permeability_tensors
+                permeability = math.sqrt(float(k_x[i, j, k])) * math.sqrt(float(k_y[i, j, k]))
+
             # Создаем и добавляем скважину
             well = Well(
                 name=w['name'],
@@ -104,7 +111,9 @@ class WellManager:
                 rate_type=w.get('rate_type', 'reservoir'),
                 surface_phase=w.get('surface_phase'),
                 limits=w.get('limits'),
-                bhp_min=w.get('bhp_min')
+                bhp_min=w.get('bhp_min'),
+                grid_size=reservoir.grid_size,
+                permeability=permeability
             )
             self.wells.append(well)
             print(f"  > Скважина '{well.name}' добавлена в менеджер.")
-- 
2.43.0


From 3ee1e17c9a693900c5810ffcd694d727f2e6eb0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:11 +0000
Subject: [PATCH 03/31] fix: minimum bottom-hole pressure switch had the wrong
 sign and no effect on saturations

The required bottom-hole pressure was computed above the block pressure, so a
producer never switched to bhp_min; and a switched producer still removed its
full nominal rate from the saturations.
---
 src/simulator/simulation.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/simulator/simulation.py b/src/simulator/simulation.py
index e09785a..0ed0fdb 100644
--- a/src/simulator/simulation.py
+++ b/src/simulator/simulation.py
@@ -1115,6 +1115,10 @@ class Simulator:
                         q_w[i, j, k] += q_total
                 else:
                     # Producer
+                    # Если на шаге давления скважина переключилась на bhp_min, отбор берём из того же BHP-условия
+                    q_bhp_min = None
+                    if well.bhp_min is not None and well.last_mode == 'bhp':
+                        q_bhp_min = float(well.well_index * mob_t[i, j, k] * (P_new[i, j, k] - well.bhp_min * 1e6))
                     if getattr(well, 'rate_type', 'reservoir') == 'surface' and self.fluid.pvt is not None:
                         sp = (well.surface_phase or 'liquid').lower()
                         Bo_cell = float(self.fluid._eval_pvt(P_new, 'Bo')[i, j, k])
@@ -1144,6 +1148,8 @@ class Simulator:
                             # q_liq_surf = q_total*(fo/Bo + fg*Rv/Bg + fw/Bw)
                             denom = (fo_ / max(Bo_cell, 1e-12) + fg_ * Rv_cell / max(Bg_cell, 1e-12) + fw_ / max(Bw_cell, 1e-12))
                             q_total = - (q_base / max(denom, 1e-12))
+                        if q_bhp_min is not None:
+                            q_total = -q_bhp_min
                         # Availability-choke: масштабируем q_total по доступности фаз в ячейке (dS не выходит за пределы)
                         PV_cell = float(self.porous_volume[i, j, k])
                         fw_ = fw[i, j, k].item(); fg_ = fg[i, j, k].item()
@@ -1215,6 +1221,8 @@ class Simulator:
                         qo_loc = q_total * fo[i, j, k]
                     else:
                         # Резервуарный total rate
+                        if q_bhp_min is not None:
+                            q_total = -q_bhp_min
                         # Возможные surface-лимиты также применим, если есть PVT
                         if self.fluid.pvt is not None:
                             Bo_cell = float(self.fluid._eval_pvt(P_new, 'Bo')[i, j, k])
@@ -1638,9 +1646,9 @@ class Simulator:
                     mob_t_well = mob_t.view(-1)[idx]
                     wi = well.well_index
                     # Требуемый BHP для обеспечения заданного rate
-                    # q = wi * mob_t * (p_block - p_bhp) => p_bhp_req = p_block - q/(wi*mob_t)
-                    denom = wi * mob_t_well + 1e-12
-                    p_bhp_req = p_block - rate_si / denom
+                    # rate_si < 0: -rate_si = wi * mob_t * (p_block - p_bhp) => p_bhp_req = p_block + rate_si/(wi*mob_t)
+                    denom = wi * mob_t_well + 1e-30
+                    p_bhp_req = p_block + rate_si / denom
                     p_bhp_min = well.bhp_min * 1e6
                     if p_bhp_req < p_bhp_min:
                         # Переключаемся на BHP-контроль на этом шаге
-- 
2.43.0


From d81dbff69ad4163a0933677caca794f8974dac23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:57 +0000
Subject: [PATCH 04/31] fix: a producer was shut in when one phase was absent
 from its cell

With no flow of a phase the availability factor took the 'outflow' branch and
became available/1e-12 = 0 for a phase at its residual saturation, so PVT
producers in gas-free cells produced nothing.
---
 src/simulator/simulation.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/simulator/simulation.py b/src/simulator/simulation.py
index 0ed0fdb..59094d4 100644
--- a/src/simulator/simulation.py
+++ b/src/simulator/simulation.py
@@ -1166,11 +1166,11 @@ class Simulator:
                         alpha = 1.0
                         if dSw_well > 0.0:
                             alpha = min(alpha, sw_up / max(dSw_well, 1e-12))
-                        else:
+                        elif dSw_well < 0.0:
                             alpha = min(alpha, sw_dn / max(abs(dSw_well), 1e-12))
                         if dSg_well > 0.0:
                             alpha = min(alpha, sg_up / max(dSg_well, 1e-12))
-                        else:
+                        elif dSg_well < 0.0:
                             alpha = min(alpha, sg_dn / max(abs(dSg_well), 1e-12))
                         alpha = max(0.0, min(1.0, alpha))
                         q_total *= alpha
@@ -1247,11 +1247,11 @@ class Simulator:
                             alpha = 1.0
                             if dSw_well > 0.0:
                                 alpha = min(alpha, sw_up / max(dSw_well, 1e-12))
-                            else:
+                            elif dSw_well < 0.0:
                                 alpha = min(alpha, sw_dn / max(abs(dSw_well), 1e-12))
                             if dSg_well > 0.0:
                                 alpha = min(alpha, sg_up / max(dSg_well, 1e-12))
-                            else:
+                            elif dSg_well < 0.0:
                                 alpha = min(alpha, sg_dn / max(abs(dSg_well), 1e-12))
                             alpha = max(0.0, min(1.0, alpha))
                             q_total *= alpha
-- 
2.43.0


From 3b12a3ef1811bd4818651c410e42f489671a639c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:40 +0000
Subject: [PATCH 05/31] fix: component balance counted every well flow twice

With PVT tables the surface in/out volumes were added once in the well loop
(actual, throttled flow) and again per sub-step (nominal flow). Keep the
volumes of the flow that is actually applied.
---
 src/simulator/simulation.py | 111 ------------------------------------
 1 file changed, 111 deletions(-)

diff --git a/src/simulator/simulation.py b/src/simulator/simulation.py
index 59094d4..bf3cd6a 100644
--- a/src/simulator/simulation.py
+++ b/src/simulator/simulation.py
@@ -1401,117 +1401,6 @@ class Simulator:
             sg_max_t = (1.0 - so_r - S_w_cur)
             S_g_cur = torch.clamp(S_g_cur, min=sg_min_t, max=sg_max_t)
 
-            # Подшаговая интеграция компонентного баланса с учётом текущих S
-            try:
-                if self.fluid.pvt is not None:
-                    # Обновляем временно насыщенности для расчёта кривых
-                    self.fluid.s_w = S_w_cur
-                    self.fluid.s_g = S_g_cur
-                    self.fluid.s_o = 1.0 - self.fluid.s_w - self.fluid.s_g
-                    # Мобилизации и доли
-                    mu_w = self.fluid._eval_pvt(P_new, 'mu_w')
-                    mu_o = self.fluid._eval_pvt(P_new, 'mu_o')
-                    mu_g = self.fluid._eval_pvt(P_new, 'mu_g')
-                    krw = self.fluid.calc_water_kr(self.fluid.s_w)
-                    kro = self.fluid.calc_oil_kr(self.fluid.s_w, self.fluid.s_g)
-                    krg = self.fluid.calc_gas_kr(self.fluid.s_g)
-                    mob_w_cur = krw / (mu_w + 1e-12)
-                    mob_o_cur = kro / (mu_o + 1e-12)
-                    mob_g_cur = krg / (mu_g + 1e-12)
-                    mob_t_cur = mob_w_cur + mob_o_cur + mob_g_cur
-                    fw_cur = mob_w_cur / (mob_t_cur + 1e-12)
-                    fg_cur = mob_g_cur / (mob_t_cur + 1e-12)
-                    fo_cur = mob_o_cur / (mob_t_cur + 1e-12)
-                    # PVT на текущем P
-                    Bo = self.fluid._eval_pvt(P_new, 'Bo'); Bw = self.fluid._eval_pvt(P_new, 'Bw'); Bg = self.fluid._eval_pvt(P_new, 'Bg')
-                    Rs = self.fluid._eval_pvt(P_new, 'Rs')
-                    try:
-                        Rv = self.fluid._eval_pvt(P_new, 'Rv')
-                    except Exception:
-                        Rv = torch.zeros_like(Bg)
-                    dt_sub = dt / N
-                    # Скважины: вклад за подшаг
-                    for well in self.well_manager.get_wells():
-                        i, j, k = well.i, well.j, well.k
-                        if i >= self.reservoir.nx or j >= self.reservoir.ny or k >= self.reservoir.nz:
-                            continue
-                        Bo_cell = float(Bo[i, j, k]); Bw_cell = float(Bw[i, j, k]); Bg_cell = float(Bg[i, j, k])
-                        Rs_cell = float(Rs[i, j, k])
-                        try:
-                            Rv_cell = float(Rv[i, j, k])
-                        except Exception:
-                            Rv_cell = 0.0
-                        fo_ = float(fo_cur[i, j, k]); fw_ = float(fw_cur[i, j, k]); fg_ = float(fg_cur[i, j, k])
-                        # Вычисляем q_total для подшага по текущим долям
-                        if well.control_type == 'rate':
-                            rate_scale = float(self.sim_params.get('global_rate_scale', 1.0))
-                            q_base = (well.control_value * rate_scale) / 86400.0
-                            if well.type == 'injector':
-                                if getattr(well, 'rate_type', 'reservoir') == 'surface':
-                                    if getattr(well, 'injected_phase', 'water') == 'gas':
-                                        q_total_sub = q_base * Bg_cell
-                                    else:
-                                        q_total_sub = q_base * Bw_cell
-                                else:
-                                    q_total_sub = q_base
-                                q_total_sub *= 1.0
-                                # IN для газа/воды
-                                if getattr(well, 'injected_phase', 'water') == 'gas':
-                                    qg_surf = max(q_total_sub, 0.0) / max(Bg_cell, 1e-12) * 86400.0
-                                    self.component_balance['gas']['in'] += float(qg_surf * (dt_sub / 86400.0))
-                                    self.component_balance['oil']['in'] += float(Rv_cell * qg_surf * (dt_sub / 86400.0))
-                                else:
-                                    qw_surf = max(q_total_sub, 0.0) / max(Bw_cell, 1e-12) * 86400.0
-                                    self.component_balance['oil']['in'] += 0.0
-                                    self.component_balance['gas']['in'] += 0.0
-                            else:
-                                # producer
-                                if getattr(well, 'rate_type', 'reservoir') == 'surface':
-                                    sp = (well.surface_phase or 'liquid').lower()
-                                    if sp == 'oil':
-                                        denom = (fo_ / max(Bo_cell, 1e-12) + fg_ * Rv_cell / max(Bg_cell, 1e-12))
-                                        q_total_sub = - (q_base / max(denom, 1e-12))
-                                    elif sp == 'water':
-                                        q_w_res = q_base * Bw_cell
-                                        q_total_sub = - q_w_res / max(fw_, 1e-12)
-                                    elif sp == 'gas':
-                                        denom = (fg_ / max(Bg_cell, 1e-12) + fo_ * Rs_cell / max(Bo_cell, 1e-12))
-                                        q_total_sub = - (q_base / max(denom, 1e-12))
-                                    else:
-                                        denom = (fo_ / max(Bo_cell, 1e-12) + fg_ * Rv_cell / max(Bg_cell, 1e-12) + fw_ / max(Bw_cell, 1e-12))
-                                        q_total_sub = - (q_base / max(denom, 1e-12))
-                                else:
-                                    q_total_sub = -q_base
-                                qo_res = max((-q_total_sub * fo_), 0.0)
-                                qg_res = max((-q_total_sub * fg_), 0.0)
-                                oil_delta = dt_sub * (qo_res / max(Bo_cell, 1e-12) + Rv_cell * qg_res / max(Bg_cell, 1e-12))
-                                gas_delta = dt_sub * (qg_res / max(Bg_cell, 1e-12) + Rs_cell * qo_res / max(Bo_cell, 1e-12))
-                                self.component_balance['oil']['out'] += float(oil_delta)
-                                self.component_balance['gas']['out'] += float(gas_delta)
-                        elif well.control_type == 'bhp':
-                            # оценим total по текущим долям (Mobility-weighted WI уже учтён на шаге давления)
-                            wi = well.well_index
-                            p_bhp = well.control_value * 1e6
-                            p_block = float(P_new[i, j, k])
-                            # приблизим mob_t по текущим долям (линейно): используем mob_t_cur
-                            mob_t_cell = float(mob_t_cur[i, j, k])
-                            q_total_sub = wi * mob_t_cell * (p_block - p_bhp)
-                            if well.type == 'injector':
-                                if getattr(well, 'injected_phase', 'water') == 'gas':
-                                    qg_surf = max(-q_total_sub, 0.0) / max(Bg_cell, 1e-12) * 86400.0
-                                    self.component_balance['gas']['in'] += float(qg_surf * (dt_sub / 86400.0))
-                                    self.component_balance['oil']['in'] += float(Rv_cell * qg_surf * (dt_sub / 86400.0))
-                            else:
-                                qabs = abs(q_total_sub)
-                                qo_res = qabs * fo_
-                                qg_res = qabs * fg_
-                                oil_delta = dt_sub * (qo_res / max(Bo_cell, 1e-12) + Rv_cell * qg_res / max(Bg_cell, 1e-12))
-                                gas_delta = dt_sub * (qg_res / max(Bg_cell, 1e-12) + Rs_cell * qo_res / max(Bo_cell, 1e-12))
-                                self.component_balance['oil']['out'] += float(oil_delta)
-                                self.component_balance['gas']['out'] += float(gas_delta)
-            except Exception:
-                pass
-
         self.fluid.s_w = S_w_cur
         self.fluid.s_g = S_g_cur
         self.fluid.s_o = 1.0 - self.fluid.s_w - self.fluid.s_g
-- 
2.43.0


From 82bc0ce2bbda0e6fe142300d584854ed6270cbca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:33 +0000
Subject: [PATCH 06/31] fix: an IMPES step that had to be cut reported success
 for the full step

After a failed pressure solve only the reduced time was simulated, but the
caller was told the whole step succeeded, so time silently went missing. Cover
the whole requested step, and restore state and trackers on failure.
---
 src/simulator/simulation.py | 45 ++++++++++++++++++++-----------------
 1 file changed, 25 insertions(+), 20 deletions(-)

diff --git a/src/simulator/simulation.py b/src/simulator/simulation.py
index bf3cd6a..ae15205 100644
--- a/src/simulator/simulation.py
+++ b/src/simulator/simulation.py
@@ -3,6 +3,7 @@ import numpy as np
 import matplotlib.pyplot as plt
 from scipy.sparse import csc_matrix, diags, bmat
 from scipy.sparse.linalg import cg, LinearOperator, bicgstab, spsolve
+import copy
 import time
 import os
 import datetime
@@ -820,18 +821,25 @@ class Simulator:
     # ==================================================================
     
     def _impes_step(self, dt):
-        """ Выполняет один временной шаг с использованием схемы IMPES с адаптивным dt. """
-        original_dt = dt
+        """
+        Выполняет один временной шаг с использованием схемы IMPES с адаптивным dt.
+
+        Если решатель давления не сходится, шаг дробится, пока не пройден весь dt.
+        При неудаче состояние и трекеры баланса возвращаются к началу шага.
+        """
         current_dt = dt
-        max_attempts = self.sim_params.get("max_time_step_attempts", 5)
+        remaining = dt
+        attempts_left = self.sim_params.get("max_time_step_attempts", 5)
         dt_reduction_factor = self.sim_params.get("dt_reduction_factor", 2.0)
-        dt_increase_factor = self.sim_params.get("dt_increase_factor", 1.25)
 
-        consecutive_success = 0
-        last_dt_increased = False
+        # Начальное состояние для отката
+        fluid = self.fluid
+        initial_state = (fluid.pressure, fluid.s_w, fluid.s_g, fluid.s_o, fluid.prev_pressure, fluid.prev_sw)
+        initial_mass_balance = copy.deepcopy(self.mass_balance)
+        initial_component_balance = copy.deepcopy(self.component_balance)
 
-        for attempt in range(max_attempts):
-            print(f"Попытка шага IMPES с dt = {current_dt/86400:.2f} дней (Попытка {attempt+1}/{max_attempts})")
+        while attempts_left > 0:
+            print(f"Попытка шага IMPES с dt = {current_dt/86400:.2f} дней (осталось попыток: {attempts_left})")
 
             P_new, converged = self._impes_pressure_step(current_dt)
 
@@ -844,24 +852,21 @@ class Simulator:
                 self.fluid.prev_pressure = self.fluid.pressure.clone()
                 self.fluid.prev_sw = self.fluid.s_w.clone()
 
-                consecutive_success += 1
-
-                # Попробуем увеличить dt, если успешно несколько раз подряд
-                if consecutive_success >= 2 and current_dt < original_dt and not last_dt_increased:
-                    current_dt = min(current_dt * dt_increase_factor, original_dt)
-                    last_dt_increased = True
-                else:
-                    last_dt_increased = False
-
-                return True
+                remaining -= current_dt
+                if remaining <= 1e-9 * dt:
+                    return True
+                current_dt = min(current_dt, remaining)
+                continue
 
             # если не сошлось, уменьшаем шаг
             print("  IMPES не сошелся, уменьшаем dt")
             current_dt /= dt_reduction_factor
-            consecutive_success = 0
-            last_dt_increased = False
+            attempts_left -= 1
 
         print("IMPES не сошелся даже с минимальным dt, прекращаем симуляцию.")
+        (fluid.pressure, fluid.s_w, fluid.s_g, fluid.s_o, fluid.prev_pressure, fluid.prev_sw) = initial_state
+        self.mass_balance = initial_mass_balance
+        self.component_balance = initial_component_balance
         return False
 
     def _impes_pressure_step(self, dt):
-- 
2.43.0


From 450b4f48868dbd61c482f3d4610990102f4146c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:02 +0000
Subject: [PATCH 07/31] fix: run() dropped the last step to rounding and went
 on after a failed IMPES step

int(0.3/0.1) is 2; and a failed step only stopped fully implicit runs.
---
 src/simulator/simulation.py | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/src/simulator/simulation.py b/src/simulator/simulation.py
index ae15205..d617777 100644
--- a/src/simulator/simulation.py
+++ b/src/simulator/simulation.py
@@ -2048,7 +2048,8 @@ class Simulator:
         animation_fps = self.sim_params.get('animation_fps', 5)
         
         # Рассчитываем количество шагов
-        num_steps = int(total_time_days / time_step_days)
+        # (небольшой допуск: 0.3/0.1 в плавающей арифметике чуть меньше 3)
+        num_steps = int(total_time_days / time_step_days + 1e-9)
         
         # Создаем уникальную директорию для данного запуска
         timestamp = datetime.datetime.now().strftime("%Y%m%d_%H%M%S")
@@ -2071,15 +2072,10 @@ class Simulator:
             # Выполняем один шаг
             success = self.run_step(dt=time_step_sec)
             
-            # Если шаг не сошелся, пробуем с меньшим шагом
-            if not success and self.solver_type == 'fully_implicit':
-                print(f"  Шаг {i+1} не сошелся. Пробуем с меньшим временным шагом.")
-                reduced_dt = time_step_sec / 2
-                success = self.run_step(dt=reduced_dt)
-                
-                if not success:
-                    print(f"  Шаг {i+1} не сошелся даже с уменьшенным шагом. Завершаем симуляцию.")
-                    break
+            # run_step сам дробит шаг; если и это не помогло, дальше считать нельзя
+            if not success:
+                print(f"  Шаг {i+1} не сошелся даже с уменьшенным шагом. Завершаем симуляцию.")
+                break
             
             # Сохранение промежуточных результатов
             if (i + 1) % save_interval == 0 and save_interval < num_steps:
-- 
2.43.0


From a94ceac4c2ff19040af49121f1aec37e55320f0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:46 +0000
Subject: [PATCH 08/31] fix: fully implicit step reported success without
 converging and lost gas from the closure

---
 src/simulator/simulation.py | 55 +++++++++++++++----------------------
 1 file changed, 22 insertions(+), 33 deletions(-)

diff --git a/src/simulator/simulation.py b/src/simulator/simulation.py
index d617777..c92f09e 100644
--- a/src/simulator/simulation.py
+++ b/src/simulator/simulation.py
@@ -145,56 +145,44 @@ class Simulator:
         Returns:
             Успешность выполнения шага (True/False)
         """
-        # Сохраняем оригинальный временной шаг для возможного увеличения в будущем
-        original_dt = dt
         current_dt = dt
-        max_attempts = self.sim_params.get("max_time_step_attempts", 5)
-        dt_increase_factor = self.sim_params.get("dt_increase_factor", 1.5)
+        remaining = dt
+        attempts_left = self.sim_params.get("max_time_step_attempts", 5)
         dt_reduction_factor = self.sim_params.get("dt_reduction_factor", 2.0)
         
         # Сохраняем начальное состояние для возможного отката
-        initial_pressure = self.fluid.pressure.clone()
-        initial_saturation = self.fluid.s_w.clone()
-        
-        # Счетчик успешных шагов подряд с уменьшенным шагом
-        consecutive_success = 0
-        last_dt_increased = False
+        fluid = self.fluid
+        initial_state = (fluid.pressure, fluid.s_w, fluid.s_o, fluid.prev_pressure, fluid.prev_sw)
         
-        for attempt in range(max_attempts):
-            print(f"Попытка шага с dt = {current_dt/86400:.2f} дней (Попытка {attempt+1}/{max_attempts})")
+        while attempts_left > 0:
+            print(f"Попытка шага с dt = {current_dt/86400:.2f} дней (осталось попыток: {attempts_left})")
+            attempt_state = (fluid.pressure.clone(), fluid.s_w.clone(), fluid.s_o.clone())
             
             # Выполняем шаг с текущим значением dt
-            converged = self._fully_implicit_newton_step(current_dt)
+            converged, _ = self._fully_implicit_newton_step(current_dt)
             
             if converged:
                 print(f"Шаг успешно выполнен с dt = {current_dt/86400:.2f} дней.")
-                consecutive_success += 1
                 
                 # Обновляем предыдущие состояния флюида
                 self.fluid.prev_pressure = self.fluid.pressure.clone()
                 self.fluid.prev_sw = self.fluid.s_w.clone()
                 
-                # Если это был уменьшенный шаг и мы успешно сделали несколько шагов подряд,
-                # пробуем увеличить шаг для следующей итерации, но не больше исходного
-                if consecutive_success >= 2 and current_dt < original_dt and not last_dt_increased:
-                    current_dt = min(current_dt * dt_increase_factor, original_dt)
-                    last_dt_increased = True
-                    print(f"Увеличиваем временной шаг до dt = {current_dt/86400:.2f} дней для следующей итерации.")
-                else:
-                    last_dt_increased = False
-                return True
+                remaining -= current_dt
+                if remaining <= 1e-9 * dt:
+                    return True
+                current_dt = min(current_dt, remaining)
+                continue
 
-            # Неудачная попытка - восстанавливаем начальное состояние
-            self.fluid.pressure = initial_pressure.clone()
-            self.fluid.s_w = initial_saturation.clone()
-            self.fluid.s_o = 1.0 - self.fluid.s_w
+            # Неудачная попытка - восстанавливаем состояние до попытки
+            (self.fluid.pressure, self.fluid.s_w, self.fluid.s_o) = attempt_state
             
             print("Решатель не сошелся. Уменьшаем шаг времени.")
             current_dt /= dt_reduction_factor
-            consecutive_success = 0
-            last_dt_increased = False
+            attempts_left -= 1
             
         print("Не удалось добиться сходимости даже с минимальным шагом. Симуляция остановлена.")
+        (fluid.pressure, fluid.s_w, fluid.s_o, fluid.prev_pressure, fluid.prev_sw) = initial_state
         return False
         
     def _fully_implicit_newton_step(self, dt, max_iter=20, tol=1e-3, 
@@ -478,9 +466,9 @@ class Simulator:
             self._apply_newton_step(delta, best_factor)
             
             # Ограничиваем значения физическими пределами
-            self.fluid.s_w.clamp_(self.fluid.sw_cr, 1.0 - self.fluid.so_r)
+            self.fluid.s_w = self.fluid.s_w.clamp(min=self.fluid.sw_cr).minimum(1.0 - self.fluid.so_r - self.fluid.s_g)
             self.fluid.pressure.clamp_(1e5, 100e6)  # От 0.1 МПа до 100 МПа
-            self.fluid.s_o = 1.0 - self.fluid.s_w  # Обновляем нефтенасыщенность
+            self.fluid.s_o = 1.0 - self.fluid.s_w - self.fluid.s_g  # Обновляем нефтенасыщенность
             
             # Вычисляем время, затраченное на итерацию
             iter_time = time.time() - start_time
@@ -765,10 +753,10 @@ class Simulator:
         
         # Ограничиваем физическими пределами
         self.fluid.pressure.clamp_(1e5, 100e6)  # От 0.1 МПа до 100 МПа
-        self.fluid.s_w.clamp_(self.fluid.sw_cr, 1.0 - self.fluid.so_r)
+        self.fluid.s_w = self.fluid.s_w.clamp(min=self.fluid.sw_cr).minimum(1.0 - self.fluid.so_r - self.fluid.s_g)
         
         # Обновляем также нефтенасыщенность
-        self.fluid.s_o = 1.0 - self.fluid.s_w
+        self.fluid.s_o = 1.0 - self.fluid.s_w - self.fluid.s_g
         
         # Подсчитываем количество ограниченных значений
         p_limited = torch.sum(p_delta != p_delta_raw).item()
@@ -1819,6 +1807,7 @@ class Simulator:
                         
                     else:
                         dfw_dsw2 = trans * dlambda_w_dsw[idx2] * (dp - dp_cap + gravity_term_w)
+                        dfo_dsw2 = trans * dlambda_o_dsw[idx2] * (dp + gravity_term_o)
                         
                         if self.fluid.pc_scale > 0:
                             dfw_dsw1 = trans * lambda_w_up * (-dpc_dsw[idx1])
-- 
2.43.0


From 06469b5eec4b21cbbc313700b1bdb7df580c7698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:17 +0000
Subject: [PATCH 09/31] fix: AMG coarsest solve pinned an unknown of
 nonsingular systems

---
 src/solver/classical_amg.py | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/src/solver/classical_amg.py b/src/solver/classical_amg.py
index 95b7078..f9d63ce 100644
--- a/src/solver/classical_amg.py
+++ b/src/solver/classical_amg.py
@@ -1043,18 +1043,22 @@ class ClassicalAMG:
             print(f"  [V-CYCLE L{lvl}] ВХОД: ||x||={x.norm():.3e}, ||b||={b.norm():.3e}, n={level['n']}")
         
         if level['is_coarsest']:
-            # Прямое решение на coarsest уровне (фиксируем первую степень свободы)
+            # Прямое решение на coarsest уровне
             n = level['n']
-            A_dense = level['A'].to_dense().clone()
-            b_local = b.clone()
-            x = torch.zeros_like(b_local)
-            if n > 0:
-                A_dense[0, :] = 0.0
-                A_dense[:, 0] = 0.0
-                A_dense[0, 0] = 1.0
-                b_local[0] = 0.0
+            x = torch.zeros_like(b)
 
             if n <= 500:
+                A_dense = level['A'].to_dense()
+                b_local = b.clone()
+                chol, info = torch.linalg.cholesky_ex(A_dense)
+                pivots = chol.diagonal() ** 2
+                if n > 0 and (info.item() != 0 or (pivots <= 1e-13 * A_dense.diagonal()).any()):
+                    # Вырожденная система (чистый Нейман): фиксируем первую степень свободы
+                    A_dense = A_dense.clone()
+                    A_dense[0, :] = 0.0
+                    A_dense[:, 0] = 0.0
+                    A_dense[0, 0] = 1.0
+                    b_local[0] = 0.0
                 try:
                     x = torch.linalg.solve(A_dense, b_local)
                 except RuntimeError:
@@ -1063,7 +1067,7 @@ class ClassicalAMG:
                 inv_relax = level['inv_relax']
                 omega = 0.7
                 for it in range(50):
-                    r = b_local - self._spmv_csr(level['A'], x)
+                    r = b - self._spmv_csr(level['A'], x)
                     delta = omega * inv_relax * r
                     x = x + delta
             return x
-- 
2.43.0


From 237517fb7e41210e11f0ca98302200a9394f3c67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:17 +0000
Subject: [PATCH 10/31] fix: AMG relaxation cap and row equilibration broke
 convergence for small-diagonal systems

---
 src/solver/classical_amg.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/solver/classical_amg.py b/src/solver/classical_amg.py
index f9d63ce..859271e 100644
--- a/src/solver/classical_amg.py
+++ b/src/solver/classical_amg.py
@@ -772,8 +772,9 @@ class ClassicalAMG:
         print(f"🔍 [ClassicalAMG] Equilibration: {'ON' if use_equilibration else 'OFF'} (threshold={EQUILIBRATION_THRESHOLD:.0e})")
         
         if use_equilibration:
-            # Применяем equilibration: A → D^(-1/2) A D^(-1/2)
-            Dhalf_inv = 1.0 / torch.sqrt(diag_orig)  # D^(-1/2)
+            # Применяем equilibration: A → D^(-1/2) A D^(-1/2). D единый для всех строк:
+            # построчное масштабирование нарушало бы P·1=1 как интерполяцию near-nullspace.
+            Dhalf_inv = torch.full_like(diag_orig, diag_median ** -0.5)  # D^(-1/2), D = median(diag)·I
             crow = A_csr.crow_indices()
             col = A_csr.col_indices()
             vals = A_csr.values().clone()
@@ -807,7 +808,7 @@ class ClassicalAMG:
                 row_abs = self._row_abs_sum(A_current)
                 beta = 0.3  # L1-Jacobi параметр
                 denom = torch.maximum(diag_abs, beta * row_abs).clamp_min(1e-30)
-                inv_relax = (1.0 / denom).clamp(max=1e2)  # Мягкая страховка
+                inv_relax = 1.0 / denom
                 
                 self.levels.append({
                     'A': A_current,
@@ -835,7 +836,7 @@ class ClassicalAMG:
                 row_abs = self._row_abs_sum(A_current)
                 beta = 0.3
                 denom = torch.maximum(diag_abs, beta * row_abs).clamp_min(1e-30)
-                inv_relax = (1.0 / denom).clamp(max=1e2)
+                inv_relax = 1.0 / denom
                 
                 self.levels.append({
                     'A': A_current,
@@ -886,7 +887,7 @@ class ClassicalAMG:
             row_abs = self._row_abs_sum(A_current)
             beta = 0.3
             denom = torch.maximum(diag_abs, beta * row_abs).clamp_min(1e-30)
-            inv_relax = (1.0 / denom).clamp(max=1e2)
+            inv_relax = 1.0 / denom
             
             self.levels.append({
                 'A': A_current,
@@ -921,7 +922,7 @@ class ClassicalAMG:
             row_abs = self._row_abs_sum(A_current)
             beta = 0.3
             denom = torch.maximum(diag_abs, beta * row_abs).clamp_min(1e-30)
-            inv_relax = (1.0 / denom).clamp(max=1e2)
+            inv_relax = 1.0 / denom
             
             self.levels.append({
                 'A': A_current,
@@ -1305,7 +1306,7 @@ class ClassicalAMG:
         row_abs = self._row_abs_sum(A_lvl)
         beta = 0.3
         denom = torch.maximum(diag_abs, beta * row_abs).clamp_min(1e-30)
-        inv_relax = (1.0 / denom).clamp(max=1e2)
+        inv_relax = 1.0 / denom
         self.levels[lvl]['diag'] = diag_abs
         self.levels[lvl]['inv_relax'] = inv_relax
 
@@ -1346,7 +1347,7 @@ class ClassicalAMG:
         )
 
         if use_equilibration:
-            Dhalf_inv = 1.0 / torch.sqrt(diag_orig)
+            Dhalf_inv = torch.full_like(diag_orig, diag_median ** -0.5)
             crow = A_csr.crow_indices()
             col = A_csr.col_indices()
             vals = A_csr.values().clone()
-- 
2.43.0


From d182a2b7b8570a334a2678c81cedd6b417791d9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:17 +0000
Subject: [PATCH 11/31] fix: AMG energy weights took coarse numbers for fine
 ones

---
 src/solver/classical_amg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/solver/classical_amg.py b/src/solver/classical_amg.py
index 859271e..52ad539 100644
--- a/src/solver/classical_amg.py
+++ b/src/solver/classical_amg.py
@@ -409,7 +409,7 @@ def build_prolongation_rs_full(
             vals_row = val_P[idx]
             if cols_row.numel() == 0:
                 continue
-            B_c = basis_dev[cols_row].T
+            B_c = basis_dev[coarse_nodes[cols_row]].T
             target = basis_dev[node]
             if B_c.numel() == 0 or B_c.shape[0] == 0:
                 continue
-- 
2.43.0


From f3db7c0859e61cc750ffe04818c2de84a15f79d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:17 +0000
Subject: [PATCH 12/31] fix: AMG setup drew from the global random generator

---
 src/solver/classical_amg.py | 6 ++++--
 src/solver/pressure_amg.py  | 4 +++-
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/solver/classical_amg.py b/src/solver/classical_amg.py
index 52ad539..4f3bab0 100644
--- a/src/solver/classical_amg.py
+++ b/src/solver/classical_amg.py
@@ -121,8 +121,10 @@ def classical_coarsening(A_csr: torch.Tensor, theta: float = 0.25) -> Tuple[torc
     deg.scatter_add_(0, ii, torch.ones_like(ii, dtype=torch.float32))
     deg.scatter_add_(0, jj, torch.ones_like(jj, dtype=torch.float32))
     
-    # Случайный tie-breaker
-    w = torch.rand(n, device=device)
+    # Псевдослучайный tie-breaker с фиксированным зерном: результат воспроизводим
+    rng = torch.Generator(device='cpu')
+    rng.manual_seed(0)
+    w = torch.rand(n, generator=rng).to(device)
     score = deg + 1e-3 * w  # лексикографическое сравнение
     
     # Максимум score среди соседей (для обоих направлений)
diff --git a/src/solver/pressure_amg.py b/src/solver/pressure_amg.py
index 70f08d3..58a860b 100644
--- a/src/solver/pressure_amg.py
+++ b/src/solver/pressure_amg.py
@@ -111,7 +111,9 @@ def amg_preconditioner(
         n = A_mat.size(0)
         v_const = torch.ones(n, dtype=torch.float64, device=amg_obj.device)
         tests.append(v_const / (v_const.norm() + 1e-30))
-        v_rand = torch.randn(n, dtype=torch.float64, device=amg_obj.device)
+        rng = torch.Generator(device='cpu')
+        rng.manual_seed(0)
+        v_rand = torch.randn(n, generator=rng, dtype=torch.float64).to(amg_obj.device)
         tests.append(v_rand / (v_rand.norm() + 1e-30))
         v_grad = torch.linspace(0, 1, n, dtype=torch.float64, device=amg_obj.device)
         tests.append(v_grad / (v_grad.norm() + 1e-30))
-- 
2.43.0


From 89a20ceb0ff630a060095106fef117ed47d6571d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:50 +0000
Subject: [PATCH 13/31] fix: unconverged AMG solves were passed off as
 solutions

---
 src/simulator/simulation.py | 10 ++++++----
 src/solver/classical_amg.py |  2 ++
 src/solver/pressure_amg.py  | 23 ++++++++++++++++++++---
 3 files changed, 28 insertions(+), 7 deletions(-)

diff --git a/src/simulator/simulation.py b/src/simulator/simulation.py
index c92f09e..950fe4a 100644
--- a/src/simulator/simulation.py
+++ b/src/simulator/simulation.py
@@ -908,7 +908,7 @@ class Simulator:
             # Импорт локально, чтобы не тянуть зависимости при CG
             from solver.pressure_amg import amg_solve
             # Решаем напрямую AMG V-cycles (внутри float64 и auto device)
-            P_new_flat = amg_solve(
+            P_new_flat, converged = amg_solve(
                 A, Q,
                 tol=amg_tol,
                 max_cycles=amg_max_cycles,
@@ -916,10 +916,12 @@ class Simulator:
                 max_levels=amg_max_levels,
                 coarsest_size=amg_coarsest,
                 device=amg_device,
+                return_converged=True,
             )
-            converged = True
-            P_new = P_new_flat.view(self.reservoir.dimensions)
-            return P_new, converged
+            if converged:
+                P_new = P_new_flat.view(self.reservoir.dimensions)
+                return P_new, converged
+            print("  AMG не сошёлся: переходим на CG")
 
         # 5. Параметры CG из конфигурации (по умолчанию)
         cg_tol_base = self.sim_params.get("cg_tolerance", 1e-6)
diff --git a/src/solver/classical_amg.py b/src/solver/classical_amg.py
index 4f3bab0..1132437 100644
--- a/src/solver/classical_amg.py
+++ b/src/solver/classical_amg.py
@@ -1141,6 +1141,7 @@ class ClassicalAMG:
             x_scaled = torch.zeros_like(b) if x0 is None else x0.to(self.device)
         
         b_norm = b_scaled.norm()
+        self.converged = False
         
         for cycle in range(max_iter):
             x_scaled = self._v_cycle(0, x_scaled, b_scaled, pre_smooth=3, post_smooth=2,
@@ -1150,6 +1151,7 @@ class ClassicalAMG:
             x_ratio = x_scaled.norm() / (b_norm + 1e-30)
             print(f"  [ClassicalAMG cycle {cycle+1}] rel_res={rel_res:.3e}, ||x||/||b||={x_ratio:.2e}")
             if rel_res < tol:
+                self.converged = True
                 break
         
         # Обратное масштабирование (если было)
diff --git a/src/solver/pressure_amg.py b/src/solver/pressure_amg.py
index 58a860b..cc8a588 100644
--- a/src/solver/pressure_amg.py
+++ b/src/solver/pressure_amg.py
@@ -43,12 +43,14 @@ def amg_solve(
     coarsest_size: int = 200,
     device: Optional[str] = "auto",
     enable_equilibration: Optional[bool] = None,
-) -> torch.Tensor:
+    return_converged: bool = False,
+):
     """
     Solve A x = b using Classical RS-AMG V-cycles.
     - A: torch sparse (COO or CSR), preferably SPD M-matrix from IMPES pressure discretization
     - b: dense RHS (1-D)
-    Returns x on the same device/dtype as b (float32 by default in simulator).
+    Returns x on the same device/dtype as b (float32 by default in simulator);
+    with return_converged=True returns (x, converged).
     """
     # Target device selection
     if device == "auto" or device is None:
@@ -70,6 +72,7 @@ def amg_solve(
     )
 
     amg = _AMG_CACHE.get(cache_key)
+    reused = amg is not None
     if amg is None:
         print(f"[AMG solve] building hierarchy (cache miss) key={cache_key}")
         amg = ClassicalAMG(
@@ -84,9 +87,23 @@ def amg_solve(
         amg.update_matrix(A_csr64)
     # Solve with V-cycles until tol
     x64 = amg.solve(b64, x0=None, tol=tol, max_iter=max_cycles)
+    if reused and not amg.converged:
+        # A hierarchy built for another system may not fit this one: rebuild it
+        print("[AMG solve] reused hierarchy did not converge, rebuilding")
+        amg = ClassicalAMG(
+            A_csr64,
+            theta=theta,
+            max_levels=max_levels,
+            coarsest_size=coarsest_size,
+        )
+        _AMG_CACHE[cache_key] = amg
+        x64 = amg.solve(b64, x0=None, tol=tol, max_iter=max_cycles)
+    if not amg.converged:
+        print(f"[AMG solve] WARNING: tolerance {tol} not reached in {max_cycles} cycles")
 
     # Return to original b's device/dtype (float32 in our pipeline)
-    return x64.to(b.device, dtype=b.dtype)
+    x = x64.to(b.device, dtype=b.dtype)
+    return (x, amg.converged) if return_converged else x
 
 
 def amg_preconditioner(
-- 
2.43.0


From d8f3cb1faffd742fe882e606f73266f5cd955fa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:50 +0000
Subject: [PATCH 14/31] fix: calc_gas_density left out vaporised oil

---
 src/simulator/fluid.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/simulator/fluid.py b/src/simulator/fluid.py
index 4933565..6ac1707 100644
--- a/src/simulator/fluid.py
+++ b/src/simulator/fluid.py
@@ -371,7 +371,8 @@ class Fluid:
         """
         if self.pvt is not None:
             bg = self._eval_pvt(pressure, key='Bg')
-            return self.rho_gas_ref / (bg + 1e-12)
+            rv = self._eval_pvt(pressure, key='Rv')
+            return (self.rho_gas_ref + rv * self.rho_oil_ref) / (bg + 1e-12)
         return self.rho_gas_ref * (1.0 + self.gas_compressibility * (pressure - 1e5))
 
     def calc_water_kr(self, s_w):
-- 
2.43.0


From f24ba41b1683143d7e33e398ca8851b430a4dc3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:03 +0000
Subject: [PATCH 15/31] fix: gas was mobile at the critical gas saturation

---
 src/simulator/fluid.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/simulator/fluid.py b/src/simulator/fluid.py
index 6ac1707..e03dc90 100644
--- a/src/simulator/fluid.py
+++ b/src/simulator/fluid.py
@@ -427,8 +427,8 @@ class Fluid:
             Тензор относительной проницаемости газа
         """
         # Нормализуем газонасыщенность
-        # Газ движется в диапазоне от 0 до (1 - sw_cr - so_r)
-        s_g_norm = s_g / (1.0 - self.sw_cr - self.so_r + 1e-10)
+        # Газ движется в диапазоне от sg_cr до (1 - sw_cr - so_r)
+        s_g_norm = (s_g - self.sg_cr) / (1.0 - self.sw_cr - self.so_r - self.sg_cr + 1e-10)
         s_g_norm = torch.clamp(s_g_norm, 0.0, 1.0)
         
         # Используем показатель Кори для газа (обычно 2-3)
@@ -490,14 +490,14 @@ class Fluid:
             Тензор производной относительной проницаемости газа
         """
         ng = getattr(self, 'ng', 2.0)
-        normalized_range = 1.0 - self.sw_cr - self.so_r
+        normalized_range = 1.0 - self.sw_cr - self.so_r - self.sg_cr
         
         # Нормализованная газонасыщенность
-        s_g_norm = s_g / (normalized_range + 1e-10)
+        s_g_norm = (s_g - self.sg_cr) / (normalized_range + 1e-10)
         s_g_norm = torch.clamp(s_g_norm, 0.0, 1.0)
         
         # Проверяем, находится ли насыщенность в допустимом диапазоне
-        mask = (s_g > 0.0) & (s_g < normalized_range)
+        mask = (s_g > self.sg_cr) & (s_g < self.sg_cr + normalized_range)
         
         # Производная dkrg/dsg = ng * s_g_norm^(ng-1) / normalized_range
         result = torch.zeros_like(s_g)
-- 
2.43.0


From 57a23a731a347274cc9bcf642fc775d841252698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:03 +0000
Subject: [PATCH 16/31] fix: configured water and gas endpoint permeabilities
 were ignored

---
 src/simulator/fluid.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/simulator/fluid.py b/src/simulator/fluid.py
index e03dc90..457687b 100644
--- a/src/simulator/fluid.py
+++ b/src/simulator/fluid.py
@@ -258,7 +258,7 @@ class Fluid:
         
         # d(krw)/d(sw) = d(krw)/d(s_norm) * d(s_norm)/d(sw)
         # d(krw)/d(s_norm) = nw * s_norm^(nw-1)
-        dkrw_dsw = self.nw * (s_norm ** (self.nw - 1)) * dsw_norm_dsw
+        dkrw_dsw = self.krw_end * self.nw * (s_norm ** (self.nw - 1)) * dsw_norm_dsw
         
         # d(kro)/d(sw) = d(kro)/d(s_norm) * d(s_norm)/d(sw)
         # d(kro)/d(s_norm) = -no * (1-s_norm)^(no-1)
@@ -386,7 +386,7 @@ class Fluid:
             Тензор относительной проницаемости воды
         """
         s_norm = self._get_normalized_saturation(s_w)
-        return s_norm**self.nw
+        return self.krw_end * s_norm**self.nw
 
     def calc_oil_kr(self, s_w, s_g=None):
         """
@@ -433,7 +433,7 @@ class Fluid:
         
         # Используем показатель Кори для газа (обычно 2-3)
         ng = getattr(self, 'ng', 2.0)  # Показатель Кори для газа
-        return s_g_norm**ng
+        return self.krg_end * s_g_norm**ng
 
     def calc_dkrw_dsw(self, s_w):
         """
@@ -453,7 +453,7 @@ class Fluid:
         
         # Производная dkrw/dsw = dkrw/ds_norm * ds_norm/dsw
         result = torch.zeros_like(s_w)
-        result[mask] = self.nw * s_norm[mask]**(self.nw - 1) / normalized_range
+        result[mask] = self.krw_end * self.nw * s_norm[mask]**(self.nw - 1) / normalized_range
         
         return result
 
@@ -501,7 +501,7 @@ class Fluid:
         
         # Производная dkrg/dsg = ng * s_g_norm^(ng-1) / normalized_range
         result = torch.zeros_like(s_g)
-        result[mask] = ng * s_g_norm[mask]**(ng - 1) / normalized_range
+        result[mask] = self.krg_end * ng * s_g_norm[mask]**(ng - 1) / normalized_range
         
         return result
 
-- 
2.43.0


From 1eee7c2202eabaec6580bd2a6b6c6e93d643846c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:04 +0000
Subject: [PATCH 17/31] fix: PVT tables with unordered pressures were accepted

---
 src/simulator/pvt.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/simulator/pvt.py b/src/simulator/pvt.py
index e92e9dc..d057dd3 100644
--- a/src/simulator/pvt.py
+++ b/src/simulator/pvt.py
@@ -44,6 +44,8 @@ class PVTTable:
                 raise ValueError(f"PVT: длины столбцов не совпадают (pressure vs {name})")
         if len(self.Rv) != n:
             raise ValueError("PVT: длины столбцов не совпадают (pressure vs Rv_m3m3)")
+        if n == 0 or not np.all(np.diff(self.P) > 0):
+            raise ValueError("PVT: давления должны строго возрастать")
 
     def _interp(self, x: np.ndarray, xp: np.ndarray, fp: np.ndarray) -> np.ndarray:
         # Линейная интерполяция с экстраполяцией по краям
-- 
2.43.0


From 2846f922c901eb080779605156adede068135212 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:04 +0000
Subject: [PATCH 18/31] fix: VTK export used missing permeability fields and
 miscounted grid nodes

---
 src/output/vtk_writer.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/output/vtk_writer.py b/src/output/vtk_writer.py
index f50e524..2bc51e9 100644
--- a/src/output/vtk_writer.py
+++ b/src/output/vtk_writer.py
@@ -17,9 +17,9 @@ def save_to_vtk(reservoir, fluid, filename="simulation_results"):
 
     # Создаем координаты узлов сетки.
     # VTK ожидает координаты узлов, поэтому массив должен быть на 1 больше, чем число ячеек.
-    x = np.arange(0, (nx + 1) * dx, dx)
-    y = np.arange(0, (ny + 1) * dy, dy)
-    z = np.arange(0, (nz + 1) * dz, dz)
+    x = np.arange(nx + 1) * dx
+    y = np.arange(ny + 1) * dy
+    z = np.arange(nz + 1) * dz
 
     # Получаем данные с устройства и конвертируем в NumPy
     pressure_mpa = fluid.pressure.cpu().numpy() / 1e6 # Конвертируем в МПа для удобства
@@ -31,8 +31,8 @@ def save_to_vtk(reservoir, fluid, filename="simulation_results"):
     pressure_reshaped = pressure_mpa.reshape((nx, ny, nz), order='F')
     saturation_w_reshaped = saturation_w.reshape((nx, ny, nz), order='F')
     saturation_o_reshaped = saturation_o.reshape((nx, ny, nz), order='F')
-    perm_h_reshaped = reservoir.perm_h.cpu().numpy().reshape((nx, ny, nz), order='F')
-    perm_v_reshaped = reservoir.perm_v.cpu().numpy().reshape((nx, ny, nz), order='F')
+    perm_h_reshaped = reservoir.permeability_x.cpu().numpy().reshape((nx, ny, nz), order='F')
+    perm_v_reshaped = reservoir.permeability_z.cpu().numpy().reshape((nx, ny, nz), order='F')
     
     # Создаем словарь с данными для ячеек
     cell_data = {
@@ -51,4 +51,4 @@ def save_to_vtk(reservoir, fluid, filename="simulation_results"):
     # Используем gridToVTK для сохранения данных
     gridToVTK(filepath, x, y, z, cellData=cell_data)
     
-    print(f"Результаты успешно сохранены в файл {filepath}.vts") 
\ No newline at end of file
+    print(f"Результаты успешно сохранены в файл {filepath}.vtr") 
\ No newline at end of file
-- 
2.43.0


From 690f3c992318de81382c84f5f116ebe23a6f58a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:04 +0000
Subject: [PATCH 19/31] fix: VTK output of a run had no directory and scrambled
 cell order

---
 src/simulator/simulation.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/simulator/simulation.py b/src/simulator/simulation.py
index 950fe4a..2b2d11c 100644
--- a/src/simulator/simulation.py
+++ b/src/simulator/simulation.py
@@ -2144,7 +2144,7 @@ class Simulator:
         # Сохранение результатов в VTK (если указано)
         if save_vtk:
             try:
-                self._save_to_vtk(output_filename)
+                self._save_to_vtk(output_filename, results_dir)
             except ImportError:
                 print("Не удалось сохранить в формате VTK: отсутствуют необходимые модули.")
         
@@ -2157,12 +2157,13 @@ class Simulator:
             except ImportError:
                 print("Не удалось создать анимацию: отсутствует модуль imageio.")
 
-    def _save_to_vtk(self, output_filename):
+    def _save_to_vtk(self, output_filename, results_dir):
         """
         Сохраняет результаты в формате VTK.
         
         Args:
             output_filename: Имя файла для сохранения
+            results_dir: Директория результатов запуска
         """
         try:
             import vtk
@@ -2182,13 +2183,13 @@ class Simulator:
             grid.SetPoints(points)
             
             # Добавляем данные давления
-            pressure_array = self.fluid.pressure.cpu().numpy().flatten()
+            pressure_array = self.fluid.pressure.cpu().numpy().flatten(order='F')  # точки идут с быстрым i
             vtk_pressure = numpy_support.numpy_to_vtk(pressure_array)
             vtk_pressure.SetName("Pressure")
             grid.GetPointData().AddArray(vtk_pressure)
             
             # Добавляем данные насыщенности
-            sw_array = self.fluid.s_w.cpu().numpy().flatten()
+            sw_array = self.fluid.s_w.cpu().numpy().flatten(order='F')
             vtk_sw = numpy_support.numpy_to_vtk(sw_array)
             vtk_sw.SetName("Water_Saturation")
             grid.GetPointData().AddArray(vtk_sw)
-- 
2.43.0


From c7fa37da520484a96299a96db05ec37aa9b17c1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:34 +0000
Subject: [PATCH 20/31] fix: a well outside the grid acted on the pressure of
 another cell

---
 src/simulator/simulation.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/simulator/simulation.py b/src/simulator/simulation.py
index 2b2d11c..32865c3 100644
--- a/src/simulator/simulation.py
+++ b/src/simulator/simulation.py
@@ -1518,6 +1518,8 @@ class Simulator:
         well_bhp_terms = torch.zeros(N, device=self.device)
         for well in self.well_manager.get_wells():
             i, j, k = well.i, well.j, well.k
+            if i >= self.reservoir.nx or j >= self.reservoir.ny or k >= self.reservoir.nz:
+                continue
             idx = self._ijk_to_idx(i, j, k, self.reservoir.nx, self.reservoir.ny)
             well.cell_index_flat = idx
             if well.control_type == 'rate':
-- 
2.43.0


From 7541aef7ea33365adfb6fbfff60b74b2e6a3a514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:34 +0000
Subject: [PATCH 21/31] fix: gas overshoot pushed water below connate and
 escaped its own limit

---
 src/simulator/simulation.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/simulator/simulation.py b/src/simulator/simulation.py
index 32865c3..c2bc5db 100644
--- a/src/simulator/simulation.py
+++ b/src/simulator/simulation.py
@@ -1388,6 +1388,8 @@ class Simulator:
         for _ in range(N):
             S_w_cur = S_w_cur + dSw_sub
             S_g_cur = S_g_cur + dSg_sub
+            # окно газа независимо от воды, иначе перелёт по газу вытеснил бы воду ниже sw_cr
+            S_g_cur = torch.clamp(S_g_cur, min=sg_cr, max=1.0 - so_r - sw_cr)
             # мягкие клампы на случай численной погрешности (min/max как тензоры одной формы)
             sw_min_t = torch.full_like(S_w_cur, float(sw_cr))
             sw_max_t = (1.0 - so_r - S_g_cur)
-- 
2.43.0


From 14ec9ca79f08be653f872d6037e0c93887540ff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:07 +0000
Subject: [PATCH 22/31] fix: backflow into a BHP producer was counted as
 production

---
 src/simulator/simulation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/simulator/simulation.py b/src/simulator/simulation.py
index c2bc5db..106e0cc 100644
--- a/src/simulator/simulation.py
+++ b/src/simulator/simulation.py
@@ -1332,7 +1332,7 @@ class Simulator:
                         except Exception:
                             Rv_cell = 0.0
                         fo_ = fo[i, j, k].item(); fw_ = fw[i, j, k].item(); fg_ = fg[i, j, k].item()
-                        qabs = abs(q_total)
+                        qabs = max(float(q_total), 0.0)  # обратный поток — не отбор
                         oil_surf = qabs * (fo_ / max(Bo_cell, 1e-12) + fg_ * Rv_cell / max(Bg_cell, 1e-12)) * 86400.0
                         gas_surf = qabs * (fg_ / max(Bg_cell, 1e-12) + fo_ * Rs_cell / max(Bo_cell, 1e-12)) * 86400.0
                         # Компоненты OUT по фактическим reservoir-дебитам при BHP
-- 
2.43.0


From 6784e5f81fad0369cda151b3fd073fac97e300bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:17 +0000
Subject: [PATCH 23/31] fix: production limits turned backflow of a producer
 into production

---
 src/simulator/simulation.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/simulator/simulation.py b/src/simulator/simulation.py
index 106e0cc..ee6a3c4 100644
--- a/src/simulator/simulation.py
+++ b/src/simulator/simulation.py
@@ -1188,12 +1188,12 @@ class Simulator:
                                 candidates.append((lim['liqr'] / 86400.0) / denom_l)
                             if candidates:
                                 max_abs_q = min(candidates)
-                                if abs(q_total) > max_abs_q:
+                                if -q_total > max_abs_q:  # обратный поток лимитами отбора не ограничен
                                     q_total = -max_abs_q
                         # Диагностика per-well: сохранить surface-скорости (м3/сут)
-                        oil_surf = abs(q_total) * (fo_ / max(Bo_cell, 1e-12) + fg_ * Rv_cell / max(Bg_cell, 1e-12)) * 86400.0
-                        wat_surf = abs(q_total) * (fw_ / max(Bw_cell, 1e-12)) * 86400.0
-                        gas_surf = abs(q_total) * (fg_ / max(Bg_cell, 1e-12) + fo_ * Rs_cell / max(Bo_cell, 1e-12)) * 86400.0
+                        oil_surf = max(-q_total, 0.0) * (fo_ / max(Bo_cell, 1e-12) + fg_ * Rv_cell / max(Bg_cell, 1e-12)) * 86400.0
+                        wat_surf = max(-q_total, 0.0) * (fw_ / max(Bw_cell, 1e-12)) * 86400.0
+                        gas_surf = max(-q_total, 0.0) * (fg_ / max(Bg_cell, 1e-12) + fo_ * Rs_cell / max(Bo_cell, 1e-12)) * 86400.0
                         liq_surf = oil_surf + wat_surf
                         well.last_surface_rates = {"oil": oil_surf, "water": wat_surf, "gas": gas_surf, "liquid": liq_surf}
                         well.last_q_total = float(q_total)
@@ -1267,11 +1267,11 @@ class Simulator:
                                     candidates.append((lim['liqr'] / 86400.0) / denom_l)
                                 if candidates:
                                     max_abs_q = min(candidates)
-                                    if abs(q_total) > max_abs_q:
+                                    if -q_total > max_abs_q:  # обратный поток лимитами отбора не ограничен
                                         q_total = -max_abs_q
-                            oil_surf = abs(q_total) * (fo_ / max(Bo_cell, 1e-12) + fg_ * Rv_cell / max(Bg_cell, 1e-12)) * 86400.0
-                            wat_surf = abs(q_total) * (fw_ / max(Bw_cell, 1e-12)) * 86400.0
-                            gas_surf = abs(q_total) * (fg_ / max(Bg_cell, 1e-12) + fo_ * Rs_cell / max(Bo_cell, 1e-12)) * 86400.0
+                            oil_surf = max(-q_total, 0.0) * (fo_ / max(Bo_cell, 1e-12) + fg_ * Rv_cell / max(Bg_cell, 1e-12)) * 86400.0
+                            wat_surf = max(-q_total, 0.0) * (fw_ / max(Bw_cell, 1e-12)) * 86400.0
+                            gas_surf = max(-q_total, 0.0) * (fg_ / max(Bg_cell, 1e-12) + fo_ * Rs_cell / max(Bo_cell, 1e-12)) * 86400.0
                             liq_surf = oil_surf + wat_surf
                             well.last_surface_rates = {"oil": oil_surf, "water": wat_surf, "gas": gas_surf, "liquid": liq_surf}
                             well.last_q_total = float(q_total)
-- 
2.43.0


From b493b06099e674ec59d83b5759daec7de8d89e4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:59 +0000
Subject: [PATCH 24/31] fix: CG reported a zero pressure field as converged for
 an indefinite system

---
 src/simulator/simulation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/simulator/simulation.py b/src/simulator/simulation.py
index ee6a3c4..c4af1b9 100644
--- a/src/simulator/simulation.py
+++ b/src/simulator/simulation.py
@@ -1571,7 +1571,7 @@ class Simulator:
             z = r.clone()
         p = z.clone()
         rs_old = torch.dot(r, z)
-        if rs_old < 1e-10:
+        if 0 <= rs_old < 1e-10:  # отрицательное значение — матрица не положительно определена
             return x, True
         for i in range(max_iter):
             Ap = torch.sparse.mm(A, p.unsqueeze(1)).squeeze(1)
-- 
2.43.0


From d48430f33b5a45969f3c0153f68baa3e01322552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:05 +0000
Subject: [PATCH 25/31] fix: AMG interpolation ignored the diagonal excess of
 rows with a well or accumulation

F rows were normalised to sum to one even where the matrix row does not sum to
zero, so V-cycles stalled near bottom-hole-pressure wells in weakly connected
cells. Rows are now scaled by sum(-a_ij)/a_ii.
---
 src/solver/classical_amg.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/solver/classical_amg.py b/src/solver/classical_amg.py
index 1132437..9c57522 100644
--- a/src/solver/classical_amg.py
+++ b/src/solver/classical_amg.py
@@ -420,6 +420,16 @@ def build_prolongation_rs_full(
             val_P[idx] = w_new.to(dtype)
         P_csr = torch.sparse_csr_tensor(crow_P, col_P, val_P, size=P_csr.size(), device=device, dtype=dtype)
 
+    # Scale F rows: constants are reproduced only where the matrix row sums to zero
+    neg_sum = torch.zeros(n, device=device, dtype=dtype)
+    off_vals = torch.where(off_mask_global, (-val).clamp(min=0.0), torch.zeros_like(val))
+    neg_sum.scatter_add_(0, row_idx, off_vals)
+    row_scale = torch.where(F_mask, (neg_sum / diag.abs()).clamp(max=1.0), torch.ones_like(diag))
+    crow_P = P_csr.crow_indices()
+    rP = torch.repeat_interleave(torch.arange(n, device=device, dtype=torch.int64), crow_P[1:] - crow_P[:-1])
+    P_csr = torch.sparse_csr_tensor(crow_P, P_csr.col_indices(), P_csr.values() * row_scale[rP],
+                                    size=P_csr.size(), device=device, dtype=dtype)
+
     return (
         P_csr,
         cf,
-- 
2.43.0


From afd9155e78353e5fa0f9db7bb3ee81a9296271cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:40 +0000
Subject: [PATCH 26/31] fix: plots showed the Y axis of the grid along the axis
 labelled X

---
 src/plotting/plotter.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/plotting/plotter.py b/src/plotting/plotter.py
index 8b80b98..d8fcca7 100644
--- a/src/plotting/plotter.py
+++ b/src/plotting/plotter.py
@@ -47,7 +47,7 @@ class Plotter:
             title_suffix = f" ({time_info}, Срез Z={z_slice_idx})"
 
         # График давления
-        im1 = ax1.imshow(p_slice / 1e6, cmap='jet', origin='lower', aspect='auto')
+        im1 = ax1.imshow(p_slice.T / 1e6, cmap='jet', origin='lower', aspect='auto')
         ax1.set_title(f'Давление (МПа){title_suffix}')
         ax1.set_xlabel('Ячейка X')
         ax1.set_ylabel('Ячейка Y')
@@ -59,7 +59,7 @@ class Plotter:
         if abs(vmax_w - vmin_w) < 1e-4:
             vmin_w = max(0.0, vmin_w - 0.05)
             vmax_w = min(1.0, vmax_w + 0.05)
-        im2 = ax2.imshow(sw_slice, cmap='viridis', origin='lower', vmin=vmin_w, vmax=vmax_w, aspect='auto')
+        im2 = ax2.imshow(sw_slice.T, cmap='viridis', origin='lower', vmin=vmin_w, vmax=vmax_w, aspect='auto')
         ax2.set_title(f'Насыщенность водой{title_suffix}')
         ax2.set_xlabel('Ячейка X')
         ax2.set_ylabel('Ячейка Y')
@@ -72,7 +72,7 @@ class Plotter:
             if abs(vmax_g - vmin_g) < 1e-4:
                 vmin_g = max(0.0, vmin_g - 0.05)
                 vmax_g = min(1.0, vmax_g + 0.05)
-            im3 = ax3.imshow(sg_slice, cmap='plasma', origin='lower', vmin=vmin_g, vmax=vmax_g, aspect='auto')
+            im3 = ax3.imshow(sg_slice.T, cmap='plasma', origin='lower', vmin=vmin_g, vmax=vmax_g, aspect='auto')
             ax3.set_title(f'Насыщенность газом{title_suffix}')
             ax3.set_xlabel('Ячейка X')
             ax3.set_ylabel('Ячейка Y')
-- 
2.43.0


From 1c7707c2c4bda8342d311e489af32802036cb63d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:40 +0000
Subject: [PATCH 27/31] fix: two runs started within one second shared a
 results directory

---
 src/simulator/simulation.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/simulator/simulation.py b/src/simulator/simulation.py
index c4af1b9..23e0f1d 100644
--- a/src/simulator/simulation.py
+++ b/src/simulator/simulation.py
@@ -2048,8 +2048,16 @@ class Simulator:
         
         # Создаем уникальную директорию для данного запуска
         timestamp = datetime.datetime.now().strftime("%Y%m%d_%H%M%S")
-        results_dir = os.path.join("results", f"{output_filename}_{timestamp}")
-        os.makedirs(results_dir, exist_ok=True)
+        base_dir = os.path.join("results", f"{output_filename}_{timestamp}")
+        results_dir, suffix = base_dir, 1
+        while True:
+            try:
+                os.makedirs(results_dir)
+                break
+            except FileExistsError:
+                # Запуск с тем же именем в ту же секунду
+                results_dir = f"{base_dir}_{suffix}"
+                suffix += 1
         
         intermediate_results_dir = os.path.join(results_dir, "intermediate")
         if save_interval < num_steps:
-- 
2.43.0


From b5570acf75e7cb89397a39851b42c5744a7d9934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:40 +0000
Subject: [PATCH 28/31] fix: animations cropped or rejected frames of different
 width

---
 src/simulator/simulation.py | 9 ++++++---
 src/utils.py                | 8 ++++++++
 2 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/simulator/simulation.py b/src/simulator/simulation.py
index 23e0f1d..5abfb99 100644
--- a/src/simulator/simulation.py
+++ b/src/simulator/simulation.py
@@ -2248,10 +2248,13 @@ class Simulator:
             images.append(final_candidates[0])
         
         # Создаем анимацию
+        # Кадры с панелью газа шире кадров без неё: дополняем до общего размера
+        frames = [imageio.imread(image_path) for image_path in images]
+        size = [max((f.shape[d] for f in frames), default=0) for d in (0, 1)]
         with imageio.get_writer(output_path, mode='I', fps=fps) as writer:
-            for image_path in images:
-                image = imageio.imread(image_path)
-                writer.append_data(image)
+            for frame in frames:
+                pad = [(0, size[d] - frame.shape[d]) for d in (0, 1)] + [(0, 0)] * (frame.ndim - 2)
+                writer.append_data(np.pad(frame, pad, constant_values=255))
         
         print(f"Анимация сохранена в файл {output_path}")
 
diff --git a/src/utils.py b/src/utils.py
index 62439ca..4caa5a2 100644
--- a/src/utils.py
+++ b/src/utils.py
@@ -1,6 +1,7 @@
 import os
 import re
 import imageio
+import numpy as np
 
 
 def create_animation(image_folder, output_path, fps=5):
@@ -41,6 +42,13 @@ def create_animation(image_folder, output_path, fps=5):
     for _, filepath in file_tuples:
         images.append(imageio.imread(filepath))
 
+    # Кадры с панелью газа шире кадров без неё: дополняем до общего размера
+    size = [max(im.shape[d] for im in images) for d in (0, 1)]
+    images = [
+        np.pad(im, [(0, size[d] - im.shape[d]) for d in (0, 1)] + [(0, 0)] * (im.ndim - 2), constant_values=255)
+        for im in images
+    ]
+
     # Сохраняем GIF
     # Используем fps, переданный из конфига
     imageio.mimsave(output_path, images, fps=fps)
-- 
2.43.0


From da2763c3a46309fe59b0233769b68c47eb34d973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:50 +0000
Subject: [PATCH 29/31] fix: animation lost its frames when the output name
 contained glob characters

---
 src/simulator/simulation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/simulator/simulation.py b/src/simulator/simulation.py
index 5abfb99..88887cb 100644
--- a/src/simulator/simulation.py
+++ b/src/simulator/simulation.py
@@ -2233,7 +2233,7 @@ class Simulator:
         # а не лексикографически, чтобы кадры шли в правильном хронологическом порядке
         regex = re.compile(r'_step_(\d+)\.png$')
         step_files = []
-        for path in glob.glob(os.path.join(images_dir, "*_step_*.png")):
+        for path in glob.glob(os.path.join(glob.escape(images_dir), "*_step_*.png")):
             m = regex.search(os.path.basename(path))
             if m:
                 step_files.append((int(m.group(1)), path))
@@ -2243,7 +2243,7 @@ class Simulator:
         images = [p for _, p in step_files]
         
         # Добавляем финальный кадр, если существует (лежит в родительской директории)
-        final_candidates = glob.glob(os.path.join(os.path.dirname(images_dir), f"{os.path.basename(images_dir).split(os.sep)[-1].replace('intermediate','')}*_final.png"))
+        final_candidates = glob.glob(os.path.join(glob.escape(os.path.dirname(images_dir)), f"{os.path.basename(images_dir).split(os.sep)[-1].replace('intermediate','')}*_final.png"))
         if final_candidates:
             images.append(final_candidates[0])
         
-- 
2.43.0


From 45888fcc5999a9e193a104fe10c9fbabaa4d4b6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:07 +0000
Subject: [PATCH 30/31] fix: fully implicit step crashed with the Stone II oil
 curve

---
 src/simulator/simulation.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/simulator/simulation.py b/src/simulator/simulation.py
index 88887cb..a2b6918 100644
--- a/src/simulator/simulation.py
+++ b/src/simulator/simulation.py
@@ -301,7 +301,7 @@ class Simulator:
             
             # Расчет относительных проницаемостей и их производных
             kr_w = self.fluid.calc_water_kr(sw_vec)
-            kr_o = self.fluid.calc_oil_kr(sw_vec)
+            kr_o = self.fluid.calc_oil_kr(sw_vec, self.fluid.s_g.reshape(-1))
             
             # Расчет мобильностей для векторизации
             lambda_w = kr_w / mu_w
@@ -525,7 +525,7 @@ class Simulator:
         
         # Относительные проницаемости
         kr_w = self.fluid.calc_water_kr(sw_vec)
-        kr_o = self.fluid.calc_oil_kr(sw_vec)
+        kr_o = self.fluid.calc_oil_kr(sw_vec, self.fluid.s_g.reshape(-1))
         
         # Мобильности
         lambda_w = kr_w / mu_w
@@ -676,7 +676,7 @@ class Simulator:
             mu_w = self.fluid.mu_water
             mu_o = self.fluid.mu_oil
             kr_w = self.fluid.calc_water_kr(sw)
-            kr_o = self.fluid.calc_oil_kr(sw)
+            kr_o = self.fluid.calc_oil_kr(sw, self.fluid.s_g.reshape(-1)[idx])
             lambda_w = kr_w / mu_w
             lambda_o = kr_o / mu_o
             lambda_t = lambda_w + lambda_o
@@ -1942,7 +1942,7 @@ class Simulator:
             mu_w = self.fluid.mu_water
             mu_o = self.fluid.mu_oil
             kr_w = self.fluid.calc_water_kr(sw)
-            kr_o = self.fluid.calc_oil_kr(sw)
+            kr_o = self.fluid.calc_oil_kr(sw, self.fluid.s_g.reshape(-1)[idx])
             lambda_w = kr_w / mu_w
             lambda_o = kr_o / mu_o
             lambda_t = lambda_w + lambda_o
-- 
2.43.0


From 974339c895f4270dc5dc68641d90cd790c75c181 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:52 +0000
Subject: [PATCH 31/31] fix: iterative fallback of the fully implicit solve
 used a keyword SciPy no longer accepts

---
 src/simulator/simulation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/simulator/simulation.py b/src/simulator/simulation.py
index a2b6918..7f2dff1 100644
--- a/src/simulator/simulation.py
+++ b/src/simulator/simulation.py
@@ -360,7 +360,7 @@ class Simulator:
                         delta = torch.from_numpy(delta_np).to(device)
                     except Exception:
                         # Если прямой метод не работает, используем итеративный
-                        delta_np, info = bicgstab(jacobian_sparse, -residual_np, tol=1e-6, maxiter=1000)
+                        delta_np, info = bicgstab(jacobian_sparse, -residual_np, rtol=1e-6, maxiter=1000)
                         if info != 0:
                             print(f"  Предупреждение: Итеративный решатель не сошелся (код {info})")
                         delta = torch.from_numpy(delta_np).to(device)
-- 
2.43.0

