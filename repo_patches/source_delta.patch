From c0f953bceb97d1c2459a2feee44bbc052c0bb950 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:13 +0000
Subject: [PATCH 01/24] fix: keep S_w inside its window when S_g overshoots
 during a saturation substep

---
 src/simulator/simulation.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/simulator/simulation.py b/src/simulator/simulation.py
index 6fc5c70..71cbc92 100644
--- a/src/simulator/simulation.py
+++ b/src/simulator/simulation.py
@@ -1387,7 +1387,9 @@ class Simulator:
             S_g_cur = S_g_cur + dSg_sub
             # мягкие клампы на случай численной погрешности (min/max как тензоры одной формы)
             sw_min_t = torch.full_like(S_w_cur, float(sw_cr))
-            sw_max_t = (1.0 - so_r - S_g_cur)
+            # верхняя граница по воде считается от газа, уже приведённого к его окну: иначе
+            # промежуточный выход S_g за окно утаскивает S_w ниже sw_cr
+            sw_max_t = 1.0 - so_r - torch.clamp(S_g_cur, min=sg_cr, max=1.0 - so_r - sw_cr)
             S_w_cur = torch.clamp(S_w_cur, min=sw_min_t, max=sw_max_t)
             sg_min_t = torch.full_like(S_g_cur, float(sg_cr))
             sg_max_t = (1.0 - so_r - S_w_cur)
-- 
2.43.0


From ab7685c893f33068231118c01aa91bde6d033625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:19 +0000
Subject: [PATCH 02/24] fix: a producer whose phase flow is zero is not choked
 to zero by that phase's availability

---
 src/simulator/simulation.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/simulator/simulation.py b/src/simulator/simulation.py
index 71cbc92..e7fbe36 100644
--- a/src/simulator/simulation.py
+++ b/src/simulator/simulation.py
@@ -1160,11 +1160,11 @@ class Simulator:
                         alpha = 1.0
                         if dSw_well > 0.0:
                             alpha = min(alpha, sw_up / max(dSw_well, 1e-12))
-                        else:
+                        elif dSw_well < 0.0:
                             alpha = min(alpha, sw_dn / max(abs(dSw_well), 1e-12))
                         if dSg_well > 0.0:
                             alpha = min(alpha, sg_up / max(dSg_well, 1e-12))
-                        else:
+                        elif dSg_well < 0.0:
                             alpha = min(alpha, sg_dn / max(abs(dSg_well), 1e-12))
                         alpha = max(0.0, min(1.0, alpha))
                         q_total *= alpha
@@ -1239,11 +1239,11 @@ class Simulator:
                             alpha = 1.0
                             if dSw_well > 0.0:
                                 alpha = min(alpha, sw_up / max(dSw_well, 1e-12))
-                            else:
+                            elif dSw_well < 0.0:
                                 alpha = min(alpha, sw_dn / max(abs(dSw_well), 1e-12))
                             if dSg_well > 0.0:
                                 alpha = min(alpha, sg_up / max(dSg_well, 1e-12))
-                            else:
+                            elif dSg_well < 0.0:
                                 alpha = min(alpha, sg_dn / max(abs(dSg_well), 1e-12))
                             alpha = max(0.0, min(1.0, alpha))
                             q_total *= alpha
-- 
2.43.0


From cc4da673e1c1922963f526a050567b17551534e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:53 +0000
Subject: [PATCH 03/24] fix: count each well's surface component volumes once
 per step, from the rate actually applied

---
 src/simulator/simulation.py | 111 ------------------------------------
 1 file changed, 111 deletions(-)

diff --git a/src/simulator/simulation.py b/src/simulator/simulation.py
index e7fbe36..32c55c1 100644
--- a/src/simulator/simulation.py
+++ b/src/simulator/simulation.py
@@ -1395,117 +1395,6 @@ class Simulator:
             sg_max_t = (1.0 - so_r - S_w_cur)
             S_g_cur = torch.clamp(S_g_cur, min=sg_min_t, max=sg_max_t)
 
-            # Подшаговая интеграция компонентного баланса с учётом текущих S
-            try:
-                if self.fluid.pvt is not None:
-                    # Обновляем временно насыщенности для расчёта кривых
-                    self.fluid.s_w = S_w_cur
-                    self.fluid.s_g = S_g_cur
-                    self.fluid.s_o = 1.0 - self.fluid.s_w - self.fluid.s_g
-                    # Мобилизации и доли
-                    mu_w = self.fluid._eval_pvt(P_new, 'mu_w')
-                    mu_o = self.fluid._eval_pvt(P_new, 'mu_o')
-                    mu_g = self.fluid._eval_pvt(P_new, 'mu_g')
-                    krw = self.fluid.calc_water_kr(self.fluid.s_w)
-                    kro = self.fluid.calc_oil_kr(self.fluid.s_w, self.fluid.s_g)
-                    krg = self.fluid.calc_gas_kr(self.fluid.s_g)
-                    mob_w_cur = krw / (mu_w + 1e-12)
-                    mob_o_cur = kro / (mu_o + 1e-12)
-                    mob_g_cur = krg / (mu_g + 1e-12)
-                    mob_t_cur = mob_w_cur + mob_o_cur + mob_g_cur
-                    fw_cur = mob_w_cur / (mob_t_cur + 1e-12)
-                    fg_cur = mob_g_cur / (mob_t_cur + 1e-12)
-                    fo_cur = mob_o_cur / (mob_t_cur + 1e-12)
-                    # PVT на текущем P
-                    Bo = self.fluid._eval_pvt(P_new, 'Bo'); Bw = self.fluid._eval_pvt(P_new, 'Bw'); Bg = self.fluid._eval_pvt(P_new, 'Bg')
-                    Rs = self.fluid._eval_pvt(P_new, 'Rs')
-                    try:
-                        Rv = self.fluid._eval_pvt(P_new, 'Rv')
-                    except Exception:
-                        Rv = torch.zeros_like(Bg)
-                    dt_sub = dt / N
-                    # Скважины: вклад за подшаг
-                    for well in self.well_manager.get_wells():
-                        i, j, k = well.i, well.j, well.k
-                        if i >= self.reservoir.nx or j >= self.reservoir.ny or k >= self.reservoir.nz:
-                            continue
-                        Bo_cell = float(Bo[i, j, k]); Bw_cell = float(Bw[i, j, k]); Bg_cell = float(Bg[i, j, k])
-                        Rs_cell = float(Rs[i, j, k])
-                        try:
-                            Rv_cell = float(Rv[i, j, k])
-                        except Exception:
-                            Rv_cell = 0.0
-                        fo_ = float(fo_cur[i, j, k]); fw_ = float(fw_cur[i, j, k]); fg_ = float(fg_cur[i, j, k])
-                        # Вычисляем q_total для подшага по текущим долям
-                        if well.control_type == 'rate':
-                            rate_scale = float(self.sim_params.get('global_rate_scale', 1.0))
-                            q_base = (well.control_value * rate_scale) / 86400.0
-                            if well.type == 'injector':
-                                if getattr(well, 'rate_type', 'reservoir') == 'surface':
-                                    if getattr(well, 'injected_phase', 'water') == 'gas':
-                                        q_total_sub = q_base * Bg_cell
-                                    else:
-                                        q_total_sub = q_base * Bw_cell
-                                else:
-                                    q_total_sub = q_base
-                                q_total_sub *= 1.0
-                                # IN для газа/воды
-                                if getattr(well, 'injected_phase', 'water') == 'gas':
-                                    qg_surf = max(q_total_sub, 0.0) / max(Bg_cell, 1e-12) * 86400.0
-                                    self.component_balance['gas']['in'] += float(qg_surf * (dt_sub / 86400.0))
-                                    self.component_balance['oil']['in'] += float(Rv_cell * qg_surf * (dt_sub / 86400.0))
-                                else:
-                                    qw_surf = max(q_total_sub, 0.0) / max(Bw_cell, 1e-12) * 86400.0
-                                    self.component_balance['oil']['in'] += 0.0
-                                    self.component_balance['gas']['in'] += 0.0
-                            else:
-                                # producer
-                                if getattr(well, 'rate_type', 'reservoir') == 'surface':
-                                    sp = (well.surface_phase or 'liquid').lower()
-                                    if sp == 'oil':
-                                        denom = (fo_ / max(Bo_cell, 1e-12) + fg_ * Rv_cell / max(Bg_cell, 1e-12))
-                                        q_total_sub = - (q_base / max(denom, 1e-12))
-                                    elif sp == 'water':
-                                        q_w_res = q_base * Bw_cell
-                                        q_total_sub = - q_w_res / max(fw_, 1e-12)
-                                    elif sp == 'gas':
-                                        denom = (fg_ / max(Bg_cell, 1e-12) + fo_ * Rs_cell / max(Bo_cell, 1e-12))
-                                        q_total_sub = - (q_base / max(denom, 1e-12))
-                                    else:
-                                        denom = (fo_ / max(Bo_cell, 1e-12) + fg_ * Rv_cell / max(Bg_cell, 1e-12) + fw_ / max(Bw_cell, 1e-12))
-                                        q_total_sub = - (q_base / max(denom, 1e-12))
-                                else:
-                                    q_total_sub = -q_base
-                                qo_res = max((-q_total_sub * fo_), 0.0)
-                                qg_res = max((-q_total_sub * fg_), 0.0)
-                                oil_delta = dt_sub * (qo_res / max(Bo_cell, 1e-12) + Rv_cell * qg_res / max(Bg_cell, 1e-12))
-                                gas_delta = dt_sub * (qg_res / max(Bg_cell, 1e-12) + Rs_cell * qo_res / max(Bo_cell, 1e-12))
-                                self.component_balance['oil']['out'] += float(oil_delta)
-                                self.component_balance['gas']['out'] += float(gas_delta)
-                        elif well.control_type == 'bhp':
-                            # оценим total по текущим долям (Mobility-weighted WI уже учтён на шаге давления)
-                            wi = well.well_index
-                            p_bhp = well.control_value * 1e6
-                            p_block = float(P_new[i, j, k])
-                            # приблизим mob_t по текущим долям (линейно): используем mob_t_cur
-                            mob_t_cell = float(mob_t_cur[i, j, k])
-                            q_total_sub = wi * mob_t_cell * (p_block - p_bhp)
-                            if well.type == 'injector':
-                                if getattr(well, 'injected_phase', 'water') == 'gas':
-                                    qg_surf = max(-q_total_sub, 0.0) / max(Bg_cell, 1e-12) * 86400.0
-                                    self.component_balance['gas']['in'] += float(qg_surf * (dt_sub / 86400.0))
-                                    self.component_balance['oil']['in'] += float(Rv_cell * qg_surf * (dt_sub / 86400.0))
-                            else:
-                                qabs = abs(q_total_sub)
-                                qo_res = qabs * fo_
-                                qg_res = qabs * fg_
-                                oil_delta = dt_sub * (qo_res / max(Bo_cell, 1e-12) + Rv_cell * qg_res / max(Bg_cell, 1e-12))
-                                gas_delta = dt_sub * (qg_res / max(Bg_cell, 1e-12) + Rs_cell * qo_res / max(Bo_cell, 1e-12))
-                                self.component_balance['oil']['out'] += float(oil_delta)
-                                self.component_balance['gas']['out'] += float(gas_delta)
-            except Exception:
-                pass
-
         self.fluid.s_w = S_w_cur
         self.fluid.s_g = S_g_cur
         self.fluid.s_o = 1.0 - self.fluid.s_w - self.fluid.s_g
-- 
2.43.0


From 1cc51673f94623ba898a7b8fd156470da2181071 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:57 +0000
Subject: [PATCH 04/24] fix: a BHP producer below its bottom-hole pressure is
 not booked as component production

---
 src/simulator/simulation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/simulator/simulation.py b/src/simulator/simulation.py
index 32c55c1..6949a9d 100644
--- a/src/simulator/simulation.py
+++ b/src/simulator/simulation.py
@@ -1329,7 +1329,7 @@ class Simulator:
                         except Exception:
                             Rv_cell = 0.0
                         fo_ = fo[i, j, k].item(); fw_ = fw[i, j, k].item(); fg_ = fg[i, j, k].item()
-                        qabs = abs(q_total)
+                        qabs = max(q_total, 0.0)  # отбор только при p_block > p_bhp
                         oil_surf = qabs * (fo_ / max(Bo_cell, 1e-12) + fg_ * Rv_cell / max(Bg_cell, 1e-12)) * 86400.0
                         gas_surf = qabs * (fg_ / max(Bg_cell, 1e-12) + fo_ * Rs_cell / max(Bo_cell, 1e-12)) * 86400.0
                         # Компоненты OUT по фактическим reservoir-дебитам при BHP
-- 
2.43.0


From 67c924d9c9c1305d4bedc5b5c7b0ac4fc4ed7cfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:01 +0000
Subject: [PATCH 05/24] fix: gas density from a PVT table includes vaporised
 oil, as the reported in-place density does

---
 src/simulator/fluid.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/simulator/fluid.py b/src/simulator/fluid.py
index 4933565..6ac1707 100644
--- a/src/simulator/fluid.py
+++ b/src/simulator/fluid.py
@@ -371,7 +371,8 @@ class Fluid:
         """
         if self.pvt is not None:
             bg = self._eval_pvt(pressure, key='Bg')
-            return self.rho_gas_ref / (bg + 1e-12)
+            rv = self._eval_pvt(pressure, key='Rv')
+            return (self.rho_gas_ref + rv * self.rho_oil_ref) / (bg + 1e-12)
         return self.rho_gas_ref * (1.0 + self.gas_compressibility * (pressure - 1e5))
 
     def calc_water_kr(self, s_w):
-- 
2.43.0


From 088559096560d47cf3105a3158c02a5d9ca07785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:25 +0000
Subject: [PATCH 06/24] fix: do not bias interblock permeability with a
 regulariser as large as 1 mD

---
 src/simulator/simulation.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/simulator/simulation.py b/src/simulator/simulation.py
index 6949a9d..e9e7ec4 100644
--- a/src/simulator/simulation.py
+++ b/src/simulator/simulation.py
@@ -62,15 +62,15 @@ class Simulator:
             
             # Расчет проводимостей
             for i in range(nx-1):
-                k_harmonic = 2 * k_x[i, :, :] * k_x[i+1, :, :] / (k_x[i, :, :] + k_x[i+1, :, :] + 1e-15)
+                k_harmonic = 2 * k_x[i, :, :] * k_x[i+1, :, :] / (k_x[i, :, :] + k_x[i+1, :, :] + 1e-30)
                 self.T_x[i, :, :] = k_harmonic * dy * dz / dx
             
             for j in range(ny-1):
-                k_harmonic = 2 * k_y[:, j, :] * k_y[:, j+1, :] / (k_y[:, j, :] + k_y[:, j+1, :] + 1e-15)
+                k_harmonic = 2 * k_y[:, j, :] * k_y[:, j+1, :] / (k_y[:, j, :] + k_y[:, j+1, :] + 1e-30)
                 self.T_y[:, j, :] = k_harmonic * dx * dz / dy
             
             for k in range(nz-1):
-                k_harmonic = 2 * k_z[:, :, k] * k_z[:, :, k+1] / (k_z[:, :, k] + k_z[:, :, k+1] + 1e-15)
+                k_harmonic = 2 * k_z[:, :, k] * k_z[:, :, k+1] / (k_z[:, :, k] + k_z[:, :, k+1] + 1e-30)
                 self.T_z[:, :, k] = k_harmonic * dx * dy / dz
         
         # Объем пористой среды для расчетов IMPES
-- 
2.43.0


From 77498e144d9b0c872ddf1d03224ef6d1b6861270 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:30 +0000
Subject: [PATCH 07/24] fix: fully implicit scheme uses the harmonic mean
 permeability, not 1/500 of it

---
 src/simulator/simulation.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/simulator/simulation.py b/src/simulator/simulation.py
index e9e7ec4..4880bfa 100644
--- a/src/simulator/simulation.py
+++ b/src/simulator/simulation.py
@@ -571,7 +571,7 @@ class Simulator:
                     idx2 = (i+1) + j * nx + k * nx * ny
                     
                     # Средние значения
-                    avg_perm = 2 * perm_x_vec[idx1] * perm_x_vec[idx2] / (perm_x_vec[idx1] + perm_x_vec[idx2] + 1e-10)
+                    avg_perm = 2 * perm_x_vec[idx1] * perm_x_vec[idx2] / (perm_x_vec[idx1] + perm_x_vec[idx2] + 1e-30)
                     avg_rho_w = 0.5 * (rho_w[idx1] + rho_w[idx2])
                     avg_rho_o = 0.5 * (rho_o[idx1] + rho_o[idx2])
                     
@@ -607,7 +607,7 @@ class Simulator:
                     idx1 = i + j * nx + k * nx * ny
                     idx2 = i + (j+1) * nx + k * nx * ny
                     
-                    avg_perm = 2 * perm_y_vec[idx1] * perm_y_vec[idx2] / (perm_y_vec[idx1] + perm_y_vec[idx2] + 1e-10)
+                    avg_perm = 2 * perm_y_vec[idx1] * perm_y_vec[idx2] / (perm_y_vec[idx1] + perm_y_vec[idx2] + 1e-30)
                     avg_rho_w = 0.5 * (rho_w[idx1] + rho_w[idx2])
                     avg_rho_o = 0.5 * (rho_o[idx1] + rho_o[idx2])
                     
@@ -639,7 +639,7 @@ class Simulator:
                     idx1 = i + j * nx + k * nx * ny
                     idx2 = i + j * nx + (k+1) * nx * ny
                     
-                    avg_perm = 2 * perm_z_vec[idx1] * perm_z_vec[idx2] / (perm_z_vec[idx1] + perm_z_vec[idx2] + 1e-10)
+                    avg_perm = 2 * perm_z_vec[idx1] * perm_z_vec[idx2] / (perm_z_vec[idx1] + perm_z_vec[idx2] + 1e-30)
                     avg_rho_w = 0.5 * (rho_w[idx1] + rho_w[idx2])
                     avg_rho_o = 0.5 * (rho_o[idx1] + rho_o[idx2])
                     
@@ -1647,7 +1647,7 @@ class Simulator:
                     idx2 = (i+1) + j * nx + k * nx * ny
                     
                     # Средние значения
-                    avg_perm = 2 * perm_x_vec[idx1] * perm_x_vec[idx2] / (perm_x_vec[idx1] + perm_x_vec[idx2] + 1e-10)
+                    avg_perm = 2 * perm_x_vec[idx1] * perm_x_vec[idx2] / (perm_x_vec[idx1] + perm_x_vec[idx2] + 1e-30)
                     avg_rho_w = 0.5 * (rho_w[idx1] + rho_w[idx2])
                     avg_rho_o = 0.5 * (rho_o[idx1] + rho_o[idx2])
                     
@@ -1740,7 +1740,7 @@ class Simulator:
                     idx1 = i + j * nx + k * nx * ny
                     idx2 = i + (j+1) * nx + k * nx * ny
                     
-                    avg_perm = 2 * perm_y_vec[idx1] * perm_y_vec[idx2] / (perm_y_vec[idx1] + perm_y_vec[idx2] + 1e-10)
+                    avg_perm = 2 * perm_y_vec[idx1] * perm_y_vec[idx2] / (perm_y_vec[idx1] + perm_y_vec[idx2] + 1e-30)
                     avg_rho_w = 0.5 * (rho_w[idx1] + rho_w[idx2])
                     avg_rho_o = 0.5 * (rho_o[idx1] + rho_o[idx2])
                     
@@ -1831,7 +1831,7 @@ class Simulator:
                     idx1 = i + j * nx + k * nx * ny
                     idx2 = i + j * nx + (k+1) * nx * ny
                     
-                    avg_perm = 2 * perm_z_vec[idx1] * perm_z_vec[idx2] / (perm_z_vec[idx1] + perm_z_vec[idx2] + 1e-10)
+                    avg_perm = 2 * perm_z_vec[idx1] * perm_z_vec[idx2] / (perm_z_vec[idx1] + perm_z_vec[idx2] + 1e-30)
                     avg_rho_w = 0.5 * (rho_w[idx1] + rho_w[idx2])
                     avg_rho_o = 0.5 * (rho_o[idx1] + rho_o[idx2])
                     
-- 
2.43.0


From 97e5732335e8500902de98857aa858ee4c2632fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:11 +0000
Subject: [PATCH 08/24] fix: flat cell indices use the row-major order in which
 the fields are flattened

---
 src/simulator/reservoir.py | 2 +-
 src/simulator/well.py      | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/simulator/reservoir.py b/src/simulator/reservoir.py
index 9a8eb32..d64f1b4 100644
--- a/src/simulator/reservoir.py
+++ b/src/simulator/reservoir.py
@@ -77,4 +77,4 @@ class Reservoir:
         Returns:
             Линейный индекс ячейки
         """
-        return i + j * self.nx + k * self.nx * self.ny
+        return (i * self.ny + j) * self.nz + k
diff --git a/src/simulator/well.py b/src/simulator/well.py
index 8c51591..e5000de 100644
--- a/src/simulator/well.py
+++ b/src/simulator/well.py
@@ -37,7 +37,7 @@ class Well:
         
         nx, ny, nz = reservoir_dimensions
         self.cell_index = (i, j, k)
-        self.cell_index_flat = i + j * nx + k * nx * ny
+        self.cell_index_flat = (i * ny + j) * nz + k
         
         # Определяем реальные размеры ячейки из reservoir_dimensions
         # Для Peaceman нужно знать dx, dy. Полагаем кубические ячейки и берём 1 м, если размеры не переданы.
-- 
2.43.0


From 9e036a2a517daa65cf2a3c6ccd09ad9ff95a82ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:16 +0000
Subject: [PATCH 09/24] fix: fully implicit fluxes connect geometric neighbours
 on non-cubic grids

---
 src/simulator/simulation.py | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/simulator/simulation.py b/src/simulator/simulation.py
index 4880bfa..ca20779 100644
--- a/src/simulator/simulation.py
+++ b/src/simulator/simulation.py
@@ -567,8 +567,8 @@ class Simulator:
         for i in range(nx-1):
             for j in range(ny):
                 for k in range(nz):
-                    idx1 = i + j * nx + k * nx * ny
-                    idx2 = (i+1) + j * nx + k * nx * ny
+                    idx1 = self._ijk_to_idx(i, j, k, nx, ny)
+                    idx2 = self._ijk_to_idx(i+1, j, k, nx, ny)
                     
                     # Средние значения
                     avg_perm = 2 * perm_x_vec[idx1] * perm_x_vec[idx2] / (perm_x_vec[idx1] + perm_x_vec[idx2] + 1e-30)
@@ -604,8 +604,8 @@ class Simulator:
         for j in range(ny-1):
             for i in range(nx):
                 for k in range(nz):
-                    idx1 = i + j * nx + k * nx * ny
-                    idx2 = i + (j+1) * nx + k * nx * ny
+                    idx1 = self._ijk_to_idx(i, j, k, nx, ny)
+                    idx2 = self._ijk_to_idx(i, j+1, k, nx, ny)
                     
                     avg_perm = 2 * perm_y_vec[idx1] * perm_y_vec[idx2] / (perm_y_vec[idx1] + perm_y_vec[idx2] + 1e-30)
                     avg_rho_w = 0.5 * (rho_w[idx1] + rho_w[idx2])
@@ -636,8 +636,8 @@ class Simulator:
         for k in range(nz-1):
             for i in range(nx):
                 for j in range(ny):
-                    idx1 = i + j * nx + k * nx * ny
-                    idx2 = i + j * nx + (k+1) * nx * ny
+                    idx1 = self._ijk_to_idx(i, j, k, nx, ny)
+                    idx2 = self._ijk_to_idx(i, j, k+1, nx, ny)
                     
                     avg_perm = 2 * perm_z_vec[idx1] * perm_z_vec[idx2] / (perm_z_vec[idx1] + perm_z_vec[idx2] + 1e-30)
                     avg_rho_w = 0.5 * (rho_w[idx1] + rho_w[idx2])
@@ -1643,8 +1643,8 @@ class Simulator:
         for i in range(nx-1):
             for j in range(ny):
                 for k in range(nz):
-                    idx1 = i + j * nx + k * nx * ny
-                    idx2 = (i+1) + j * nx + k * nx * ny
+                    idx1 = self._ijk_to_idx(i, j, k, nx, ny)
+                    idx2 = self._ijk_to_idx(i+1, j, k, nx, ny)
                     
                     # Средние значения
                     avg_perm = 2 * perm_x_vec[idx1] * perm_x_vec[idx2] / (perm_x_vec[idx1] + perm_x_vec[idx2] + 1e-30)
@@ -1737,8 +1737,8 @@ class Simulator:
         for j in range(ny-1):
             for i in range(nx):
                 for k in range(nz):
-                    idx1 = i + j * nx + k * nx * ny
-                    idx2 = i + (j+1) * nx + k * nx * ny
+                    idx1 = self._ijk_to_idx(i, j, k, nx, ny)
+                    idx2 = self._ijk_to_idx(i, j+1, k, nx, ny)
                     
                     avg_perm = 2 * perm_y_vec[idx1] * perm_y_vec[idx2] / (perm_y_vec[idx1] + perm_y_vec[idx2] + 1e-30)
                     avg_rho_w = 0.5 * (rho_w[idx1] + rho_w[idx2])
@@ -1828,8 +1828,8 @@ class Simulator:
         for k in range(nz-1):
             for i in range(nx):
                 for j in range(ny):
-                    idx1 = i + j * nx + k * nx * ny
-                    idx2 = i + j * nx + (k+1) * nx * ny
+                    idx1 = self._ijk_to_idx(i, j, k, nx, ny)
+                    idx2 = self._ijk_to_idx(i, j, k+1, nx, ny)
                     
                     avg_perm = 2 * perm_z_vec[idx1] * perm_z_vec[idx2] / (perm_z_vec[idx1] + perm_z_vec[idx2] + 1e-30)
                     avg_rho_w = 0.5 * (rho_w[idx1] + rho_w[idx2])
-- 
2.43.0


From 9e49ea086b634fe91a4eb2f0ab4a4d40f97b19dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:21 +0000
Subject: [PATCH 10/24] fix: a fully implicit step that did not converge is not
 reported as a success

---
 src/simulator/simulation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/simulator/simulation.py b/src/simulator/simulation.py
index ca20779..4bd5f78 100644
--- a/src/simulator/simulation.py
+++ b/src/simulator/simulation.py
@@ -163,7 +163,7 @@ class Simulator:
             print(f"Попытка шага с dt = {current_dt/86400:.2f} дней (Попытка {attempt+1}/{max_attempts})")
             
             # Выполняем шаг с текущим значением dt
-            converged = self._fully_implicit_newton_step(current_dt)
+            converged, _ = self._fully_implicit_newton_step(current_dt)
             
             if converged:
                 print(f"Шаг успешно выполнен с dt = {current_dt/86400:.2f} дней.")
-- 
2.43.0


From 57a0b94ab1e20b73ca65f80d17c2db2c9bd34175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:26 +0000
Subject: [PATCH 11/24] fix: Newton increments are read in the interleaved
 order in which the system is assembled

---
 src/simulator/simulation.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/simulator/simulation.py b/src/simulator/simulation.py
index 4bd5f78..814bfa9 100644
--- a/src/simulator/simulation.py
+++ b/src/simulator/simulation.py
@@ -745,8 +745,9 @@ class Simulator:
         old_sw = self.fluid.s_w.clone().reshape(-1)
         
         # Применяем приращения с заданным фактором
-        p_delta_raw = delta[:num_cells].reshape(-1) * factor
-        sw_delta_raw = delta[num_cells:].reshape(-1) * factor
+        # (в системе неизвестные чередуются: 2*idx - давление, 2*idx+1 - насыщенность)
+        p_delta_raw = delta[0::2].reshape(-1) * factor
+        sw_delta_raw = delta[1::2].reshape(-1) * factor
         
         # Ограничиваем изменения давления (не более 10% от текущего значения и не более 2 МПа)
         max_p_change_rel = 0.1 * torch.abs(old_p)
-- 
2.43.0


From a7f28f8d4a0895cea4ac4d00ef59a54647131d0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:03 +0000
Subject: [PATCH 12/24] fix: bhp_min switch compares the bottom-hole pressure a
 producer actually needs

---
 src/simulator/simulation.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/simulator/simulation.py b/src/simulator/simulation.py
index 814bfa9..32de36e 100644
--- a/src/simulator/simulation.py
+++ b/src/simulator/simulation.py
@@ -1531,8 +1531,9 @@ class Simulator:
                     wi = well.well_index
                     # Требуемый BHP для обеспечения заданного rate
                     # q = wi * mob_t * (p_block - p_bhp) => p_bhp_req = p_block - q/(wi*mob_t)
+                    # (rate_si < 0 для отбора, т.е. q = -rate_si)
                     denom = wi * mob_t_well + 1e-12
-                    p_bhp_req = p_block - rate_si / denom
+                    p_bhp_req = p_block + rate_si / denom
                     p_bhp_min = well.bhp_min * 1e6
                     if p_bhp_req < p_bhp_min:
                         # Переключаемся на BHP-контроль на этом шаге
-- 
2.43.0


From 99c4d8305ba891002fb3d1338b30683713103a09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:35 +0000
Subject: [PATCH 13/24] fix: AMG coarsest solve keeps the first unknown free
 when the operator is regular

---
 src/solver/classical_amg.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/solver/classical_amg.py b/src/solver/classical_amg.py
index 95b7078..0b607d4 100644
--- a/src/solver/classical_amg.py
+++ b/src/solver/classical_amg.py
@@ -1043,12 +1043,18 @@ class ClassicalAMG:
             print(f"  [V-CYCLE L{lvl}] ВХОД: ||x||={x.norm():.3e}, ||b||={b.norm():.3e}, n={level['n']}")
         
         if level['is_coarsest']:
-            # Прямое решение на coarsest уровне (фиксируем первую степень свободы)
+            # Прямое решение на coarsest уровне (первую степень свободы фиксируем, только
+            # если оператор вырожден: иначе поправка в этой ячейке потерялась бы)
             n = level['n']
             A_dense = level['A'].to_dense().clone()
             b_local = b.clone()
             x = torch.zeros_like(b_local)
-            if n > 0:
+            singular = False
+            if 0 < n <= 500:
+                L, info = torch.linalg.cholesky_ex(A_dense)
+                pivots = L.diagonal() ** 2
+                singular = int(info) != 0 or bool((pivots <= 1e-12 * A_dense.diagonal().abs()).any())
+            if singular:
                 A_dense[0, :] = 0.0
                 A_dense[:, 0] = 0.0
                 A_dense[0, 0] = 1.0
@@ -1063,7 +1069,7 @@ class ClassicalAMG:
                 inv_relax = level['inv_relax']
                 omega = 0.7
                 for it in range(50):
-                    r = b_local - self._spmv_csr(level['A'], x)
+                    r = b - self._spmv_csr(level['A'], x)
                     delta = omega * inv_relax * r
                     x = x + delta
             return x
-- 
2.43.0


From c0fb629693c6319ffd04fe10c27bb46e2df17710 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:21 +0000
Subject: [PATCH 14/24] fix: the pressure equation skips wells outside the
 grid, as the saturation step does

---
 src/simulator/simulation.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/simulator/simulation.py b/src/simulator/simulation.py
index 32de36e..6e34885 100644
--- a/src/simulator/simulation.py
+++ b/src/simulator/simulation.py
@@ -1518,6 +1518,9 @@ class Simulator:
         well_bhp_terms = torch.zeros(N, device=self.device)
         for well in self.well_manager.get_wells():
             i, j, k = well.i, well.j, well.k
+            # скважины вне сетки пропускаются так же, как на шаге насыщенности
+            if i >= self.reservoir.nx or j >= self.reservoir.ny or k >= self.reservoir.nz:
+                continue
             idx = self._ijk_to_idx(i, j, k, self.reservoir.nx, self.reservoir.ny)
             well.cell_index_flat = idx
             if well.control_type == 'rate':
-- 
2.43.0


From d816242f1332624b7a16f6e6e00b05d1377e1aa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:26 +0000
Subject: [PATCH 15/24] fix: a whole number of time steps is not rounded down
 by one

---
 src/simulator/simulation.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/simulator/simulation.py b/src/simulator/simulation.py
index 6e34885..08527e2 100644
--- a/src/simulator/simulation.py
+++ b/src/simulator/simulation.py
@@ -2042,7 +2042,8 @@ class Simulator:
         animation_fps = self.sim_params.get('animation_fps', 5)
         
         # Рассчитываем количество шагов
-        num_steps = int(total_time_days / time_step_days)
+        # (допуск: 0.3/0.1 в двоичной арифметике меньше 3)
+        num_steps = int(total_time_days / time_step_days + 1e-9)
         
         # Создаем уникальную директорию для данного запуска
         timestamp = datetime.datetime.now().strftime("%Y%m%d_%H%M%S")
-- 
2.43.0


From afe4b1c4e06f1296978e6dc5f6a7b934261a968c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:57 +0000
Subject: [PATCH 16/24] fix: VTK export reads the permeability fields the
 reservoir has, and writes n+1 nodes per axis

---
 src/output/vtk_writer.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/output/vtk_writer.py b/src/output/vtk_writer.py
index f50e524..b38d872 100644
--- a/src/output/vtk_writer.py
+++ b/src/output/vtk_writer.py
@@ -17,9 +17,9 @@ def save_to_vtk(reservoir, fluid, filename="simulation_results"):
 
     # Создаем координаты узлов сетки.
     # VTK ожидает координаты узлов, поэтому массив должен быть на 1 больше, чем число ячеек.
-    x = np.arange(0, (nx + 1) * dx, dx)
-    y = np.arange(0, (ny + 1) * dy, dy)
-    z = np.arange(0, (nz + 1) * dz, dz)
+    x = np.arange(nx + 1) * dx
+    y = np.arange(ny + 1) * dy
+    z = np.arange(nz + 1) * dz
 
     # Получаем данные с устройства и конвертируем в NumPy
     pressure_mpa = fluid.pressure.cpu().numpy() / 1e6 # Конвертируем в МПа для удобства
@@ -31,8 +31,8 @@ def save_to_vtk(reservoir, fluid, filename="simulation_results"):
     pressure_reshaped = pressure_mpa.reshape((nx, ny, nz), order='F')
     saturation_w_reshaped = saturation_w.reshape((nx, ny, nz), order='F')
     saturation_o_reshaped = saturation_o.reshape((nx, ny, nz), order='F')
-    perm_h_reshaped = reservoir.perm_h.cpu().numpy().reshape((nx, ny, nz), order='F')
-    perm_v_reshaped = reservoir.perm_v.cpu().numpy().reshape((nx, ny, nz), order='F')
+    perm_h_reshaped = reservoir.permeability_x.cpu().numpy().reshape((nx, ny, nz), order='F')
+    perm_v_reshaped = reservoir.permeability_z.cpu().numpy().reshape((nx, ny, nz), order='F')
     
     # Создаем словарь с данными для ячеек
     cell_data = {
-- 
2.43.0


From fc0a54f5f28881e295ded76e0c7bf6d69e8e33e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:03 +0000
Subject: [PATCH 17/24] fix: VTS export knows its results directory and lists
 values in the order of its points

---
 src/simulator/simulation.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/simulator/simulation.py b/src/simulator/simulation.py
index 08527e2..1b890ce 100644
--- a/src/simulator/simulation.py
+++ b/src/simulator/simulation.py
@@ -2152,7 +2152,7 @@ class Simulator:
         # Сохранение результатов в VTK (если указано)
         if save_vtk:
             try:
-                self._save_to_vtk(output_filename)
+                self._save_to_vtk(output_filename, results_dir)
             except ImportError:
                 print("Не удалось сохранить в формате VTK: отсутствуют необходимые модули.")
         
@@ -2165,12 +2165,13 @@ class Simulator:
             except ImportError:
                 print("Не удалось создать анимацию: отсутствует модуль imageio.")
 
-    def _save_to_vtk(self, output_filename):
+    def _save_to_vtk(self, output_filename, results_dir="results"):
         """
         Сохраняет результаты в формате VTK.
         
         Args:
             output_filename: Имя файла для сохранения
+            results_dir: Директория результатов запуска
         """
         try:
             import vtk
@@ -2190,13 +2191,13 @@ class Simulator:
             grid.SetPoints(points)
             
             # Добавляем данные давления
-            pressure_array = self.fluid.pressure.cpu().numpy().flatten()
+            pressure_array = self.fluid.pressure.cpu().numpy().flatten(order='F')
             vtk_pressure = numpy_support.numpy_to_vtk(pressure_array)
             vtk_pressure.SetName("Pressure")
             grid.GetPointData().AddArray(vtk_pressure)
             
             # Добавляем данные насыщенности
-            sw_array = self.fluid.s_w.cpu().numpy().flatten()
+            sw_array = self.fluid.s_w.cpu().numpy().flatten(order='F')
             vtk_sw = numpy_support.numpy_to_vtk(sw_array)
             vtk_sw.SetName("Water_Saturation")
             grid.GetPointData().AddArray(vtk_sw)
-- 
2.43.0


From d32ff2276e86579a4eeb43e80d5e717a66f6e3b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:05 +0000
Subject: [PATCH 18/24] fix: curve derivatives vanish outside the saturation
 window

---
 src/simulator/fluid.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/simulator/fluid.py b/src/simulator/fluid.py
index 6ac1707..5a33150 100644
--- a/src/simulator/fluid.py
+++ b/src/simulator/fluid.py
@@ -265,8 +265,9 @@ class Fluid:
         dkro_dsw = -self.no * ((1 - s_norm) ** (self.no - 1)) * dsw_norm_dsw
         
         # Обработка особых случаев на границах
-        dkrw_dsw = torch.where(s_norm <= 0, torch.zeros_like(dkrw_dsw), dkrw_dsw)
-        dkro_dsw = torch.where(s_norm >= 1, torch.zeros_like(dkro_dsw), dkro_dsw)
+        # (вне окна насыщенностей кривые постоянны, производные равны нулю)
+        dkrw_dsw = torch.where((s_norm <= 0) | (s_w > 1 - self.so_r), torch.zeros_like(dkrw_dsw), dkrw_dsw)
+        dkro_dsw = torch.where((s_norm >= 1) | (s_w < self.sw_cr), torch.zeros_like(dkro_dsw), dkro_dsw)
         
         return dkro_dsw, dkrw_dsw
 
@@ -303,7 +304,7 @@ class Fluid:
         dsgn_dsg = 1.0 / (denom + 1e-12)
         dpc_dsgn = self.pc_og_scale * self.pc_og_exponent * (1.0 - sg_norm + 1e-6) ** (-self.pc_og_exponent - 1)
         dpc_dsg = dpc_dsgn * dsgn_dsg
-        dpc_dsg = torch.where(sg_norm >= 1, torch.zeros_like(dpc_dsg), dpc_dsg)
+        dpc_dsg = torch.where((sg_norm >= 1) | (s_g < 0), torch.zeros_like(dpc_dsg), dpc_dsg)
         return dpc_dsg
 
 
@@ -324,7 +325,7 @@ class Fluid:
         dpc_dsn = self.pc_scale * self.pc_exponent * (1.0 - s_norm + 1e-6) ** (-self.pc_exponent - 1)
         
         dpc_dsw = dpc_dsn * dsw_norm_dsw
-        dpc_dsw = torch.where(s_norm >= 1, torch.zeros_like(dpc_dsw), dpc_dsw)
+        dpc_dsw = torch.where((s_norm >= 1) | (s_w < self.sw_cr), torch.zeros_like(dpc_dsw), dpc_dsw)
         return dpc_dsw
 
     def calc_water_density(self, pressure):
-- 
2.43.0


From 8137077fe84fd839b69d813374c1f8c8987516ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:23 +0000
Subject: [PATCH 19/24] fix: a failed fully implicit step restores the oil
 saturation it started from

---
 src/simulator/simulation.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/simulator/simulation.py b/src/simulator/simulation.py
index 1b890ce..10cfddf 100644
--- a/src/simulator/simulation.py
+++ b/src/simulator/simulation.py
@@ -154,6 +154,7 @@ class Simulator:
         # Сохраняем начальное состояние для возможного отката
         initial_pressure = self.fluid.pressure.clone()
         initial_saturation = self.fluid.s_w.clone()
+        initial_oil_saturation = self.fluid.s_o.clone()
         
         # Счетчик успешных шагов подряд с уменьшенным шагом
         consecutive_success = 0
@@ -186,7 +187,7 @@ class Simulator:
             # Неудачная попытка - восстанавливаем начальное состояние
             self.fluid.pressure = initial_pressure.clone()
             self.fluid.s_w = initial_saturation.clone()
-            self.fluid.s_o = 1.0 - self.fluid.s_w
+            self.fluid.s_o = initial_oil_saturation.clone()
             
             print("Решатель не сошелся. Уменьшаем шаг времени.")
             current_dt /= dt_reduction_factor
-- 
2.43.0


From 98c546f5575c0b6db1733cea170859e6c41bd149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:17 +0000
Subject: [PATCH 20/24] fix: multigrid equilibrates every matrix whose
 smoothing weights would hit their safety clamp

---
 src/solver/classical_amg.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/solver/classical_amg.py b/src/solver/classical_amg.py
index 0b607d4..d1a3908 100644
--- a/src/solver/classical_amg.py
+++ b/src/solver/classical_amg.py
@@ -724,7 +724,7 @@ class ClassicalAMG:
         self.apply_tol = 5e-2
         self.apply_max_cycles = 8
         self.debug_cycles = False
-        self.equilibration_threshold = 1e-6
+        self.equilibration_threshold = 1e-2
         self.use_equilibration = False
         
         # Конвертируем numpy CSR -> torch CSR на CUDA
@@ -757,15 +757,16 @@ class ClassicalAMG:
         # АДАПТИВНОЕ EQUILIBRATION
         # ═══════════════════════════════════════════════════════════════
         # Проверяем нужно ли equilibration:
-        # - Если median(diag) >> 1e-6: матрица хорошо масштабирована, equilibration НЕ НУЖЕН
-        # - Если median(diag) << 1e-6: матрица плохая, equilibration КРИТИЧЕН
+        # - Если min(diag) >= 1e-2: матрица хорошо масштабирована, equilibration НЕ НУЖЕН
+        # - Если min(diag) < 1e-2: inv_relax упирается в clamp(max=1e2) и сглаживание
+        #   почти не действует, equilibration КРИТИЧЕН
         # ═══════════════════════════════════════════════════════════════
         diag_orig = self._extract_diag(A_csr).abs().clamp_min(1e-30)
         diag_median = diag_orig.median().item()
         
         # Порог для equilibration: если диагональ слишком мала
-        EQUILIBRATION_THRESHOLD = 1e-6
-        use_equilibration = (diag_median < EQUILIBRATION_THRESHOLD)
+        EQUILIBRATION_THRESHOLD = self.equilibration_threshold
+        use_equilibration = (diag_orig.min().item() < EQUILIBRATION_THRESHOLD)
         self.use_equilibration = use_equilibration
         
         print(f"🔍 [ClassicalAMG] diag: min={diag_orig.min():.3e}, median={diag_median:.3e}, max={diag_orig.max():.3e}")
@@ -1339,7 +1340,7 @@ class ClassicalAMG:
 
         diag_orig = self._extract_diag(A_csr).abs().clamp_min(1e-30)
         diag_median = diag_orig.median().item()
-        use_equilibration = (diag_median < self.equilibration_threshold)
+        use_equilibration = (diag_orig.min().item() < self.equilibration_threshold)
         self.use_equilibration = use_equilibration
         print(
             f"[ClassicalAMG] update: diag min={diag_orig.min():.3e}, "
-- 
2.43.0


From 9853893a7f7bb31e0f75241e110aed44ba4381d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:49 +0000
Subject: [PATCH 21/24] fix: a step repeated at half its length covers its
 whole time

---
 src/simulator/simulation.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/simulator/simulation.py b/src/simulator/simulation.py
index 10cfddf..4bff287 100644
--- a/src/simulator/simulation.py
+++ b/src/simulator/simulation.py
@@ -2071,7 +2071,8 @@ class Simulator:
             if not success and self.solver_type == 'fully_implicit':
                 print(f"  Шаг {i+1} не сошелся. Пробуем с меньшим временным шагом.")
                 reduced_dt = time_step_sec / 2
-                success = self.run_step(dt=reduced_dt)
+                # шаг засчитывается целиком, поэтому проходим обе его половины
+                success = self.run_step(dt=reduced_dt) and self.run_step(dt=reduced_dt)
                 
                 if not success:
                     print(f"  Шаг {i+1} не сошелся даже с уменьшенным шагом. Завершаем симуляцию.")
-- 
2.43.0


From 75427ad56c215696500fe2b358e35a3476111fb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:49 +0000
Subject: [PATCH 22/24] fix: animations find the pictures in folders whose name
 has glob characters

---
 src/simulator/simulation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/simulator/simulation.py b/src/simulator/simulation.py
index 4bff287..3d5021a 100644
--- a/src/simulator/simulation.py
+++ b/src/simulator/simulation.py
@@ -2231,7 +2231,7 @@ class Simulator:
         # а не лексикографически, чтобы кадры шли в правильном хронологическом порядке
         regex = re.compile(r'_step_(\d+)\.png$')
         step_files = []
-        for path in glob.glob(os.path.join(images_dir, "*_step_*.png")):
+        for path in glob.glob(os.path.join(glob.escape(images_dir), "*_step_*.png")):
             m = regex.search(os.path.basename(path))
             if m:
                 step_files.append((int(m.group(1)), path))
@@ -2241,7 +2241,7 @@ class Simulator:
         images = [p for _, p in step_files]
         
         # Добавляем финальный кадр, если существует (лежит в родительской директории)
-        final_candidates = glob.glob(os.path.join(os.path.dirname(images_dir), f"{os.path.basename(images_dir).split(os.sep)[-1].replace('intermediate','')}*_final.png"))
+        final_candidates = glob.glob(os.path.join(glob.escape(os.path.dirname(images_dir)), f"{os.path.basename(images_dir).split(os.sep)[-1].replace('intermediate','')}*_final.png"))
         if final_candidates:
             images.append(final_candidates[0])
         
-- 
2.43.0


From 120c0adac5dc786c1664bc49800a42da6090621b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:46 +0000
Subject: [PATCH 23/24] fix: the fully implicit Jacobian evaluates the oil
 derivative of right-upwind faces along Y

---
 src/simulator/simulation.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/simulator/simulation.py b/src/simulator/simulation.py
index 3d5021a..58f84c8 100644
--- a/src/simulator/simulation.py
+++ b/src/simulator/simulation.py
@@ -1814,6 +1814,7 @@ class Simulator:
                         
                     else:
                         dfw_dsw2 = trans * dlambda_w_dsw[idx2] * (dp - dp_cap + gravity_term_w)
+                        dfo_dsw2 = trans * dlambda_o_dsw[idx2] * (dp + gravity_term_o)
                         
                         if self.fluid.pc_scale > 0:
                             dfw_dsw1 = trans * lambda_w_up * (-dpc_dsw[idx1])
-- 
2.43.0


From 85e1c6e798cd85844e6f33b1553727cdb6a71395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:02 +0000
Subject: [PATCH 24/24] fix: multigrid sweeps on a large coarsest level
 continue from the current iterate

---
 src/solver/classical_amg.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/solver/classical_amg.py b/src/solver/classical_amg.py
index d1a3908..24457f5 100644
--- a/src/solver/classical_amg.py
+++ b/src/solver/classical_amg.py
@@ -1049,7 +1049,6 @@ class ClassicalAMG:
             n = level['n']
             A_dense = level['A'].to_dense().clone()
             b_local = b.clone()
-            x = torch.zeros_like(b_local)
             singular = False
             if 0 < n <= 500:
                 L, info = torch.linalg.cholesky_ex(A_dense)
-- 
2.43.0

