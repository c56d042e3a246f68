From acdca3804ed552a04472b708278d9fb369eaf4a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:35:34 +0000
Subject: [PATCH 01/36] fix: bounding box of a sample lying entirely at
 negative coordinates

__DBL_MIN__ is the smallest positive double, not the lowest one: the maximum coordinate of a
mesh with only negative coordinates was taken as (almost) zero, which spoils the mesh centre and
lengths (Thiele length, recentering, box of the magnetostatic solver).
---
 src/mesh.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mesh.h b/src/mesh.h
index 3f6eaad..1334beb 100644
--- a/src/mesh.h
+++ b/src/mesh.h
@@ -418,7 +418,7 @@ private:
     /** return the maximum of all nodes coordinate along coord axis */
     inline double maxNodes(const Nodes::index coord /**< [in] */) const
         {
-        return doOnNodes(__DBL_MIN__, coord, [](const double a, const double b)
+        return doOnNodes(-__DBL_MAX__, coord, [](const double a, const double b)
                         { return a > b; });
         }
 
-- 
2.43.0


From accaebf7044f01a9a09a60b2163ece88598c13ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:35:34 +0000
Subject: [PATCH 02/36] fix: space-dependent field of meshes with non-magnetic
 regions

extSpaceField was filled by rank among the magnetic tetrahedrons, but is read by tetrahedron
index: with a non-magnetic region, elements got the field of another one, or memory past the end
of the vector.
---
 src/mesh.cpp | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/mesh.cpp b/src/mesh.cpp
index 6afad41..242031d 100644
--- a/src/mesh.cpp
+++ b/src/mesh.cpp
@@ -376,14 +376,12 @@ double mesh::surface(std::vector<int> &triIndices) const
 
 void mesh::setExtSpaceField()
     {
-    extSpaceField.resize(magTet.size());
-    int k(0);
-    std::for_each(magTet.begin(), magTet.end(), [this,&k](const int idx)
+    extSpaceField.resize(tet.size());  // indexed by Tet::idx
+    std::for_each(magTet.begin(), magTet.end(), [this](const int idx)
         {
         const Tetra::Tet &t = tet[idx];
         Eigen::Matrix<double,Nodes::DIM,Tetra::NPI> pg = t.getPtGauss();
         for(int i=0;i<Tetra::NPI;i++)
-            { extSpaceField[k].col(i) = settings.getFieldSpace(pg.col(i)); }
-        k++;
+            { extSpaceField[idx].col(i) = settings.getFieldSpace(pg.col(i)); }
         });
     }
-- 
2.43.0


From 9b885aaa36321efa42ee06ef070c30eff829a1c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:35:34 +0000
Subject: [PATCH 03/36] fix: domain wall speed was used uninitialized when
 recentering is enabled

---
 src/linear_algebra.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/linear_algebra.h b/src/linear_algebra.h
index fa15855..90fa756 100644
--- a/src/linear_algebra.h
+++ b/src/linear_algebra.h
@@ -115,7 +115,7 @@ private:
     const int verbose;
 
     /** speed of the domain wall */
-    double DW_vz;
+    double DW_vz = 0;
 
     /** maximum speed of the magnetization in the whole physical object */
     double v_max;
-- 
2.43.0


From f0875663127c011901869b940163556953fcdce8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:35:34 +0000
Subject: [PATCH 04/36] fix: max_angle with non-magnetic regions or
 antiparallel neighbours

The nan of the non-magnetic nodes entered the reduction, and a dot product rounded to slightly
less than -1 gave a nan.
---
 src/mesh.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/mesh.h b/src/mesh.h
index 1334beb..0ff45dd 100644
--- a/src/mesh.h
+++ b/src/mesh.h
@@ -298,11 +298,14 @@ public:
                 [](const double a, const double b){ return std::min(a, b); },
                 [this](const Edge &edge)
                     {
+                    // The magnetization is undefined on the non-magnetic nodes.
+                    if (!magNode[edge.first] || !magNode[edge.second])
+                        { return 1.0; }
                     Eigen::Vector3d m1 = getNode_u(edge.first);
                     Eigen::Vector3d m2 = getNode_u(edge.second);
                     return m1.dot(m2);
                     });
-        return std::acos(min_dot_product);
+        return std::acos(std::max(min_dot_product, -1.0));
         }
 
     /** text file (tsv) writing function for a solution, node indices are zero based
-- 
2.43.0


From 2108bcbba623fa5d57c8c12d06b0bf263805a1fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:36:26 +0000
Subject: [PATCH 05/36] fix: recentering along X or Y

Fem::recenter() expected a letter, but was given a Nodes::index, and fell back to Z whatever the
user asked for; so did the initial search of the domain wall direction.
---
 src/fem.h           |  4 ++--
 src/recentering.cpp | 14 ++------------
 2 files changed, 4 insertions(+), 14 deletions(-)

diff --git a/src/fem.h b/src/fem.h
index 3d016e9..7654cec 100644
--- a/src/fem.h
+++ b/src/fem.h
@@ -116,7 +116,7 @@ public:
 
         if (mySets.recenter)
             {
-            direction(Nodes::IDX_Z);
+            direction(mySets.recentering_direction);
             } /* DW propagation direction for recentering */
         }
 
@@ -179,7 +179,7 @@ public:
     */
 
     bool recenter(double thres /**< [in] threshold parameter */,
-                  char recentering_direction /**< [in] X|Y|Z */);
+                  Nodes::index idx_dir /**< [in] recentering direction */);
 
     /** performs the time integration of the LLG problem, with spin accumulation if any */
     int time_integration(Settings &settings /**< [in] */,
diff --git a/src/recentering.cpp b/src/recentering.cpp
index 76dbb10..4a77176 100644
--- a/src/recentering.cpp
+++ b/src/recentering.cpp
@@ -44,19 +44,9 @@ void Fem::direction(const enum index idx_dir)
     annDeallocPt(queryPt);
     }
 
-bool Fem::recenter(double thres, const char recentering_direction)
+bool Fem::recenter(double thres, const Nodes::index idx_dir)
     {
-    enum index idx_dir;
-
-    switch (recentering_direction)
-        {
-        case 'X': idx_dir = IDX_X; break;
-        case 'Y': idx_dir = IDX_Y; break;
-        case 'Z': idx_dir = IDX_Z; break;
-        default: idx_dir = IDX_Z; break;
-        }
-
-    thres = abs(thres);
+    thres = std::abs(thres);
     double m_i = msh.avg(Nodes::get_u_comp, idx_dir);
     if (fabs(m_i) < thres) return false;
 
-- 
2.43.0


From 0e6bdcc3f75fe2a585fbb22c8a4d36ef4bd46d2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:36:26 +0000
Subject: [PATCH 06/36] fix: strength and sign of the surface anisotropy field

The field of an energy density -Ks (uk.u)^2 is 2 Ks / (mu0 Ms): mu0 was missing, the sign depended
on the orientation of the triangle, and the field was infinite between two regions of the same Ms.
---
 src/triangle.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/triangle.cpp b/src/triangle.cpp
index 800560b..5624594 100644
--- a/src/triangle.cpp
+++ b/src/triangle.cpp
@@ -5,7 +5,9 @@ using namespace Nodes;
 
 void Tri::integrales(Triangle::prm const &params)
     {
-    double Kbis = 2.0*params.Ks / dMs;
+    // No field acts where there is no jump of the saturation magnetization. The sign of dMs depends
+    // on the orientation of the triangle, the anisotropy field does not.
+    double Kbis = (dMs != 0) ? 2.0*params.Ks / (mu0*std::abs(dMs)) : 0;
     
     Eigen::Matrix<double,DIM,NPI> u;
     interpolation(Nodes::get_u<CURRENT>, u);
-- 
2.43.0


From 3d925c8a8045ff583eb8fa469087a5352eab711b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:36:26 +0000
Subject: [PATCH 07/36] fix: surface anisotropy of the surfaces with suppressed
 charges

It was computed for every magnetic triangle, then ignored on those which hold no magnetic charge.
---
 src/energy.cpp | 19 ++++++++++++++-----
 src/solver.cpp |  7 +++++--
 2 files changed, 19 insertions(+), 7 deletions(-)

diff --git a/src/energy.cpp b/src/energy.cpp
index 49f2fb0..b200471 100644
--- a/src/energy.cpp
+++ b/src/energy.cpp
@@ -47,21 +47,30 @@ void Fem::energy(const double t, Settings &settings)
                       });
 
     std::for_each(msh.magTri.begin(), msh.magTri.end(),
-                  [this, &settings](const int idxElem)
+                  [this](const int idxElem)
                       {
                       const Triangle::Tri &fa =msh.tri[idxElem];
-                      const Triangle::prm &param = settings.paramTriangle[fa.idxPrm];
                       Eigen::Matrix<double,Triangle::NPI,1> phi;
                       Eigen::Matrix<double,Nodes::DIM,Triangle::NPI> u;
 
                       fa.interpolation(Nodes::get_u<NEXT>, u);
                       fa.interpolation(Nodes::get_phi<NEXT>, phi);
 
-                      if (param.Ks != 0.0)
-                          { E[ANISOTROPY] += fa.anisotropyEnergy(param, u); }
-                      
                       E[DEMAG] += fa.demagEnergy(u, phi);
                       });
+
+    // Surface anisotropy, which also acts on the surfaces with suppressed charges.
+    std::for_each(msh.tri.begin(), msh.tri.end(),
+                  [this, &settings](const Triangle::Tri &fa)
+                      {
+                      const Triangle::prm &param = settings.paramTriangle[fa.idxPrm];
+                      if (param.Ks != 0.0 && msh.isMagnetic(fa))
+                          {
+                          Eigen::Matrix<double,Nodes::DIM,Triangle::NPI> u;
+                          fa.interpolation(Nodes::get_u<NEXT>, u);
+                          E[ANISOTROPY] += fa.anisotropyEnergy(param, u);
+                          }
+                      });
     Etot = std::reduce(E.begin(),E.end());//sum of all terms
     if (settings.verbose && (Etot > Etot0))
         { std::cout << "WARNING: energy increased from " << Etot0 << " to " << Etot << "\n"; }
diff --git a/src/solver.cpp b/src/solver.cpp
index b0968dc..765a9ff 100644
--- a/src/solver.cpp
+++ b/src/solver.cpp
@@ -32,9 +32,12 @@ bool LinAlgebra::solve(const timing &t_prm)
         buildVect<Tetra::N>(my_elem.ind, Le);
         }
 
-    for (const int idx : msh->magTri)
+    // All the magnetic triangles, including those with suppressed charges: they may have some
+    // surface anisotropy.
+    for (Triangle::Tri &my_elem : msh->tri)
         {
-        Triangle::Tri &my_elem = msh->tri[idx];
+        if (!msh->isMagnetic(my_elem))
+            { continue; }
         double *data_start = my_elem.Lp.data();
         double *data_end = data_start + 2 * Triangle::N;
         std::vector<double> Le(data_start, data_end);
-- 
2.43.0


From 710259ad1eb0b600dcdea7ea62a2e6e246557bf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:36:26 +0000
Subject: [PATCH 08/36] fix: Zeeman energy in a time-dependent field

The energy of the new state was computed with the field of the start of the time step.
---
 src/time_integration.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/time_integration.cpp b/src/time_integration.cpp
index 9ba87dd..bf84ac0 100644
--- a/src/time_integration.cpp
+++ b/src/time_integration.cpp
@@ -228,16 +228,16 @@ int Fem::time_integration(Settings &settings /**< [in] */, LinAlgebra &linAlg /*
                 continue;
                 }
 
-            compute_all(settings, spinAcc_solver, myFMM, t_prm.get_t());
-            nt++;
-            flag = 0;
-
             // Prevent rounding errors from making us miss the target.
             if (last_step)
                 t_prm.set_t(t_target);
             else
                 t_prm.inc_t();
 
+            compute_all(settings, spinAcc_solver, myFMM, t_prm.get_t());
+            nt++;
+            flag = 0;
+
             if (settings.recenter) recenter(settings.threshold, settings.recentering_direction);
             if (!settings.verbose) show_progress(t_prm.get_t() / t_prm.tf);
 
-- 
2.43.0


From 5402ba81df6e334920533b18d92ced9f0011e636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:36:26 +0000
Subject: [PATCH 09/36] fix: interruption during the retry of a time step

The state saved on SIGINT or SIGTERM was the rejected one, with the time of the accepted one.
---
 src/time_integration.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/time_integration.cpp b/src/time_integration.cpp
index bf84ac0..2b0f57c 100644
--- a/src/time_integration.cpp
+++ b/src/time_integration.cpp
@@ -169,7 +169,9 @@ int Fem::time_integration(Settings &settings /**< [in] */, LinAlgebra &linAlg /*
         // Loop over the integration time steps within a visible step.
         while (t_prm.get_t() < t_target)
             {
-            exit_if_signal_received(*this, settings, t_prm, stats, spinAcc_solver.s);
+            // While retrying, the nodes hold the rejected trial, which should not be saved.
+            if (!flag)
+                exit_if_signal_received(*this, settings, t_prm, stats, spinAcc_solver.s);
 
             t_prm.set_dt(stepper(t_target - t_prm.get_t()));
             bool last_step = (t_prm.get_dt() == t_target - t_prm.get_t());
-- 
2.43.0


From 8d82a80110ae0976dd8d79c8123fab83afbb38c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:36:26 +0000
Subject: [PATCH 10/36] fix: spin accumulation depended on the number of
 previous solves

The matrix and the right-hand side were never cleared, and kept the sum of all past states.
---
 src/spinAccumulationSolver.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/spinAccumulationSolver.cpp b/src/spinAccumulationSolver.cpp
index 965e84f..14649a3 100644
--- a/src/spinAccumulationSolver.cpp
+++ b/src/spinAccumulationSolver.cpp
@@ -166,6 +166,8 @@ bool spinAcc::compute(void)
 bool spinAcc::solve(void)
     {
     iter.reset();
+    K.clear();
+    std::fill(L_rhs.begin(), L_rhs.end(), 0);
 
     for (Tetra::Tet &elem : msh->tet)
         {
-- 
2.43.0


From 2b3f09b436e5bcff481505fe0a4dab60847a60bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:40:10 +0000
Subject: [PATCH 11/36] fix: spin accumulation matrix used the magnetization of
 the previous step

The matrix was built from the CURRENT magnetization and the right hand side from
the NEXT one: before the first step they agree, after each step the saved spin
accumulation solved neither the old nor the new state.
---
 src/spinAccumulationSolver.cpp | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/spinAccumulationSolver.cpp b/src/spinAccumulationSolver.cpp
index 14649a3..6f16937 100644
--- a/src/spinAccumulationSolver.cpp
+++ b/src/spinAccumulationSolver.cpp
@@ -245,14 +245,22 @@ void spinAcc::integrales(const Tetra::Tet &tet,
     if(msh->isMagnetic(tet))
         {
         const double invTau_sd = D0 / sq(getLsd(tet)); //units: [D0/sq(lsd)] = s^-1 : it is 1/tau_sd
+        // same magnetization as in the RHS
+        auto m_comp = [this, &tet](const Nodes::index idx)
+            {
+            Eigen::Matrix<double,N,1> m;
+            for (int i = 0; i < N; i++)
+                { m[i] = msh->getNode_u(tet.ind[i])[idx]; }
+            return m;
+            };
 
-        diag = invTau_sd * a_w.cwiseProduct(tet.calcOffDiagBlock(IDX_X));
+        diag = invTau_sd * a_w.cwiseProduct(m_comp(IDX_X));
         AE.block<N,N>(    N, 2 * N).diagonal() += diag;
         AE.block<N,N>(2 * N,     N).diagonal() -= diag;
-        diag = invTau_sd * a_w.cwiseProduct(tet.calcOffDiagBlock(IDX_Y));
+        diag = invTau_sd * a_w.cwiseProduct(m_comp(IDX_Y));
         AE.block<N,N>(    0, 2 * N).diagonal() -= diag;
         AE.block<N,N>(2 * N,     0).diagonal() += diag;
-        diag = invTau_sd * a_w.cwiseProduct(tet.calcOffDiagBlock(IDX_Z));
+        diag = invTau_sd * a_w.cwiseProduct(m_comp(IDX_Z));
         AE.block<N,N>(    0,     N).diagonal() += diag;
         AE.block<N,N>(    N,     0).diagonal() -= diag;
         }
-- 
2.43.0


From 4df612fc9ce08f29a155665d8275537cfcdabf97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:40:10 +0000
Subject: [PATCH 12/36] fix: magnitude of the second order term of the spin
 torque

s_dt is THETA*dt*gamma0; as for the other second order contributions to the
right hand side, the time increment here is THETA*dt. With the extra factor
gamma0 (2e5 in SI units) the term was not homogeneous to a field.
---
 src/tetra.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tetra.cpp b/src/tetra.cpp
index 72bd24e..02f98fd 100644
--- a/src/tetra.cpp
+++ b/src/tetra.cpp
@@ -298,7 +298,7 @@ void Tet::integrales(Tetra::prm const &param, timing const &prm_t,
             BE.col(i) -= w*Abis*(da(i,0)*dUdx.col(npi) + da(i,1)*dUdy.col(npi)
                     + da(i,2)*dUdz.col(npi));// exchange
             BE.col(i) += ai_w*(H.col(npi) + Hst.col(npi) ); // Hst contribution to BE
-            BE.col(i) -= ai_w*scal_Hst_u*s_dt*V.col(npi); // spin acc second order contrib
+            BE.col(i) -= ai_w*scal_Hst_u*(s_dt/gamma0)*V.col(npi); // spin acc second order contrib
             }
         }
 
-- 
2.43.0


From ec25c65e041ba95d61b4b59dc9c7039bc327c5cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:41:31 +0000
Subject: [PATCH 13/36] fix: restart from a .sol file with non-magnetic nodes,
 and refuse damaged ones

A node of a non-magnetic region is saved as nan, which operator>> does not parse:
the files written by feeLLGood for such meshes could not be read back, neither
could those with spin accumulation columns. A truncated or longer file, or a time
tag which is not a number, is now reported. The magnetization read from the file is
normalized, as its components are rounded to the precision of the file.
---
 src/read.cpp | 60 ++++++++++++++++++++++++++++++++++++++++++++--------
 1 file changed, 51 insertions(+), 9 deletions(-)

diff --git a/src/read.cpp b/src/read.cpp
index 036f451..514130b 100644
--- a/src/read.cpp
+++ b/src/read.cpp
@@ -1,5 +1,7 @@
 #include <fstream>
 #include <algorithm>
+#include <cmath>
+#include <cstdlib>
 #include <gmsh.h>
 
 #include "settings.h"
@@ -213,8 +215,10 @@ double mesh::readSol(bool VERBOSE, const std::string& fileName)
         idx = str.find(tags::sol::time);
         if (idx != std::string::npos)
             {  // found tag "## time:"
-            t = stod(str.substr(idx + tags::sol::time.length() ));
-            flag_t = true;
+            const char *tag_value = str.c_str() + idx + tags::sol::time.length();
+            char *end;
+            t = strtod(tag_value, &end);
+            flag_t = (end != tag_value) && std::isfinite(t);
             }
         }
 
@@ -229,19 +233,57 @@ double mesh::readSol(bool VERBOSE, const std::string& fileName)
         std::cout << ".sol file: " << fileName << " @ time t = " << t << "\n";
         }
 
-    for (unsigned int i = 0; i < node.size(); i++)
+    unsigned int i = 0;  // number of nodes already read
+    while (getline(fin, str))
         {
-        double mx,my,mz;
-        unsigned int i_;
-        int node_idx = node_index[i];
-        fin >> i_ >> mx >> my >> mz >> node[node_idx].d[Nodes::NEXT].phi;
-        node[node_idx].d[Nodes::NEXT].u = Eigen::Vector3d(mx,my,mz);
-        if (i != i_)
+        if (str.find_first_not_of(" \t\r") == std::string::npos || str[0] == '#')
+            { continue; }
+
+        // Columns: index, mx, my, mz, phi, and possibly more. strtod() accepts "nan".
+        constexpr int NB_COLUMNS = 5;
+        double val[NB_COLUMNS];
+        const char *pos = str.c_str();
+        int count = 0;
+        for (char *end; count < NB_COLUMNS; count++, pos = end)
+            {
+            val[count] = strtod(pos, &end);
+            if (end == pos)
+                { break; }
+            }
+        if (count != NB_COLUMNS)
+            {
+            std::cerr << "error: invalid line in input .sol file: " << str << '\n';
+            SYSTEM_ERROR;
+            }
+        if (i >= node.size() || val[0] != i)
             {
             std::cerr << "error: mesh node index mismatch between mesh and input .sol file\n";
             fin.close();
             SYSTEM_ERROR;
             }
+
+        int node_idx = node_index[i];
+        Nodes::dataNode &dn = node[node_idx].d[Nodes::NEXT];
+        if (magNode[node_idx])
+            {
+            dn.u = Eigen::Vector3d(val[1], val[2], val[3]);
+            if (!(dn.u.norm() > 0) || !dn.u.allFinite())
+                {
+                std::cerr << "error: invalid magnetization in input .sol file: " << str << '\n';
+                SYSTEM_ERROR;
+                }
+            dn.u.normalize();
+            }
+        else  // the magnetization of a non-magnetic node is undefined
+            { dn.u = Eigen::Vector3d(NAN, NAN, NAN); }
+        dn.phi = val[4];
+        i++;
+        }
+    if (i != node.size())
+        {
+        std::cerr << "error: input .sol file has " << i << " nodes instead of "
+                  << node.size() << '\n';
+        SYSTEM_ERROR;
         }
     fin.close();
 
-- 
2.43.0


From 71c901856e61df7f29ec9bf13a38425aafaacf8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:42:32 +0000
Subject: [PATCH 14/36] fix: invalid settings or mesh file ended in an abort

Exceptions from yaml-cpp and gmsh were not caught: a syntax error, a value of the
wrong type or an unreadable mesh file terminated the program by SIGABRT. Report them
as the other configuration errors.
---
 src/read.cpp     | 11 ++++++++++-
 src/settings.cpp | 30 ++++++++++++++++--------------
 2 files changed, 26 insertions(+), 15 deletions(-)

diff --git a/src/read.cpp b/src/read.cpp
index 514130b..9b7a736 100644
--- a/src/read.cpp
+++ b/src/read.cpp
@@ -37,7 +37,16 @@ void mesh::readMesh()
 void mesh::checkMeshFile()
     {
     using namespace tags::msh;
-    gmsh::open(settings.getPbName());
+    std::ifstream fin(settings.getPbName(), std::ifstream::in);
+    on_fail_msg_error(fin, "cannot open file " + settings.getPbName());
+    fin.close();
+    try
+        { gmsh::open(settings.getPbName()); }
+    catch (const std::exception &)  // the message has been printed by gmsh
+        {
+        std::cerr << "Fatal Error: mesh file " << settings.getPbName() << " cannot be read\n";
+        exit(1);
+        }
 
     bool msh_available = (gmsh::model::getDimension() == DIM_OBJ_3D);
     if (!msh_available)
diff --git a/src/settings.cpp b/src/settings.cpp
index 0ffd9a1..4a6fd5f 100644
--- a/src/settings.cpp
+++ b/src/settings.cpp
@@ -596,21 +596,23 @@ void Settings::read(YAML::Node yaml)
 bool Settings::read(const std::string& filename)
     {
     YAML::Node config;
-    if (filename == "-")
-        { config = YAML::Load(std::cin); }
-    else
+    try
         {
-        try
-            {
-            config = YAML::LoadFile(filename);
-            }
-        catch (const YAML::BadFile &)
-            {
-            return false;
-            }
+        if (filename == "-")
+            { config = YAML::Load(std::cin); }
+        else
+            { config = YAML::LoadFile(filename); }
+        if (config.IsNull())
+            { return false; }
+        read(config);
+        }
+    catch (const YAML::BadFile &)
+        {
+        return false;
+        }
+    catch (const YAML::Exception &e)  // syntax error, or value of the wrong type
+        {
+        error((filename + ": " + e.what()).c_str());
         }
-    if (config.IsNull())
-        { return false; }
-    read(config);
     return true;
     }
-- 
2.43.0


From b22ec7d1d354830e79001c7abfda269461ce5873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:44:02 +0000
Subject: [PATCH 15/36] fix: JavaScript functions not returning numbers

Returning undefined or null aborted the program, and a component which is not a
number was silently replaced by nan.
---
 src/expression_parser.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/expression_parser.cpp b/src/expression_parser.cpp
index 39a6bda..172a29e 100644
--- a/src/expression_parser.cpp
+++ b/src/expression_parser.cpp
@@ -84,6 +84,11 @@ double ExpressionParser::get_scalar(const double arg) const
     duk_push_number(ctx, arg);          // -> [ f f arg ]
     duk_int_t err = duk_pcall(ctx, 1);  // -> [ f result ]
     die_if_error(err);
+    if (!duk_is_number(ctx, -1))
+        {
+        std::cerr << "JavaScript function did not return a number.\n";
+        exit(EXIT_FAILURE);
+        }
     double result = duk_get_number(ctx, -1);
     duk_pop(ctx);  // -> [ f ]
     return result;
@@ -93,7 +98,7 @@ double ExpressionParser::get_vector_component(const int idx) const
     {
     duk_push_int(ctx, idx);                      // [ ... v ] -> [ ... v idx ]
     duk_bool_t success = duk_get_prop(ctx, -2);  //           -> [ ... v v[idx] ]
-    if (!success)
+    if (!success || !duk_is_number(ctx, -1))
         {
         std::cerr << "JavaScript function did not return a 3-vector.\n";
         exit(EXIT_FAILURE);
@@ -107,6 +112,11 @@ Eigen::Vector3d ExpressionParser::compute_vector(const int argument_count) const
     {
     duk_int_t err = duk_pcall(ctx, argument_count);  // [ f f args... ] -> [ f v ]
     die_if_error(err);
+    if (!duk_is_object(ctx, -1))  // duk_get_prop() would throw outside of any protected call
+        {
+        std::cerr << "JavaScript function did not return a 3-vector.\n";
+        exit(EXIT_FAILURE);
+        }
     double x = get_vector_component(0);
     double y = get_vector_component(1);
     double z = get_vector_component(2);
-- 
2.43.0


From 1bd43234adb2bb119a08a6c59f12dc1493ca59b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:44:02 +0000
Subject: [PATCH 16/36] fix: Bext.space or Bext.time that is not a function
 aborted the program

---
 src/settings.cpp | 16 +++++-----------
 1 file changed, 5 insertions(+), 11 deletions(-)

diff --git a/src/settings.cpp b/src/settings.cpp
index 4a6fd5f..86c7e0a 100644
--- a/src/settings.cpp
+++ b/src/settings.cpp
@@ -519,18 +519,12 @@ void Settings::read(YAML::Node yaml)
             {
             YAML::Node field_space = field["space"];
             YAML::Node field_time = field["time"];
-            if (field_space && field_time)
+            if (field_space && field_space.IsScalar() && field_time && field_time.IsScalar())
                 {
-                if (field_space.IsScalar())
-                    {
-                    sB_space = field_space.as<std::string>();
-                    field_space_parser.set_function(sB_space);
-                    }
-                if (field_time.IsScalar())
-                    {
-                    sB_time = field_time.as<std::string>();
-                    field_time_parser.set_function(sB_time);
-                    }
+                sB_space = field_space.as<std::string>();
+                field_space_parser.set_function(sB_space);
+                sB_time = field_time.as<std::string>();
+                field_time_parser.set_function(sB_time);
                 field_type = R4toR3;
                 }
             else
-- 
2.43.0


From a7ec8dbb1984bc978595cd51d155cf640364d2c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:44:02 +0000
Subject: [PATCH 17/36] fix: out of bounds access with empty evol_columns or
 empty metadata value

---
 src/settings.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/settings.cpp b/src/settings.cpp
index 86c7e0a..b13b2ff 100644
--- a/src/settings.cpp
+++ b/src/settings.cpp
@@ -283,7 +283,7 @@ std::ostringstream Settings::commonMetadata() const
     for (auto it = userMetadata.begin(); it != userMetadata.end(); ++it)
         {
         std::string value = it->second;
-        if (value.back() == '\n') value.resize(value.size() - 1);  // remove trailing newline
+        if (!value.empty() && value.back() == '\n') value.resize(value.size() - 1);  // remove trailing newline
         replace(value, "\n", "\n##  ");  // escape and indent continuation lines
         ss << "## " << it->first << ": " << value << '\n';
         }
@@ -294,9 +294,9 @@ std::string Settings::evolMetadata() const
     {
     std::ostringstream ss = commonMetadata();
     ss << tags::evol::columns << ' ';
-    for (unsigned int i = 0; i < (evol_columns.size() - 1); i++)
-        { ss << evol_columns[i] << '\t'; }
-    ss << evol_columns[evol_columns.size() - 1] << "\n";
+    for (unsigned int i = 0; i < evol_columns.size(); i++)
+        { ss << (i == 0 ? "" : "\t") << evol_columns[i]; }
+    ss << "\n";
     return ss.str();
     }
 
-- 
2.43.0


From 27c96539cebc040a8d5129ac2142a196fa2519f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:44:16 +0000
Subject: [PATCH 18/36] fix: endless loop with min(dt) = 0 or evol_time_step <=
 0

A null min(dt) gave an initial time step of zero, which can never advance the time;
a null or negative output period gave an undefined number of output steps.
---
 src/settings.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/settings.cpp b/src/settings.cpp
index b13b2ff..027389a 100644
--- a/src/settings.cpp
+++ b/src/settings.cpp
@@ -329,6 +329,8 @@ void Settings::read(YAML::Node yaml)
             }
         assign(simName, outputs["file_basename"]);
         assign(time_step, outputs["evol_time_step"]);
+        if (!(time_step > 0))
+            { error("outputs.evol_time_step should be positive."); }
         assign(tf, outputs["final_time"]);
 
         YAML::Node mag_config_every = outputs["mag_config_every"];
@@ -568,6 +570,8 @@ void Settings::read(YAML::Node yaml)
         assign(DUMAX, time_integration["max(du)"]);
         assign(dt_min, time_integration["min(dt)"]);
         assign(dt_max, time_integration["max(dt)"]);
+        if (!(dt_min > 0) || !(dt_max >= dt_min))
+            { error("time_integration: min(dt) should be positive, and not exceed max(dt)."); }
         }  // time_integration
 
     // outputs.file_basename defaults to base name of mesh.filename.
-- 
2.43.0


From 692fa7a4e5c283c56269d5b08d10eda9d4e72e69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:44:41 +0000
Subject: [PATCH 19/36] fix: zero or undefined initial magnetization

It was silently used as is, and the run carried on with nodes whose magnetization
was not a unit vector.
---
 src/settings.h | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/settings.h b/src/settings.h
index 49dc1c9..74d8fac 100644
--- a/src/settings.h
+++ b/src/settings.h
@@ -7,6 +7,8 @@ output file format wanted by the user. This is done mainly with the class Settin
 */
 
 #include <cmath>
+#include <cstdlib>
+#include <iostream>
 #include <string>
 #include <vector>
 
@@ -266,9 +268,7 @@ public:
      */
     inline Eigen::Vector3d getMagnetization(const Eigen::Ref<const Eigen::Vector3d> p) const
         {
-        Eigen::Vector3d tmp = mag_parser.get_vector(p);
-        tmp.normalize();
-        return tmp;
+        return unit_vector(mag_parser.get_vector(p));
         }
 
     /** Evaluate the initial magnetization vector as a function of the position vector and the set
@@ -278,9 +278,7 @@ public:
     inline Eigen::Vector3d getMagnetization(const Eigen::Ref<const Eigen::Vector3d> p,
             const std::vector<std::string> &regions) const
         {
-        Eigen::Vector3d tmp = mag_parser.get_vector(p, regions);
-        tmp.normalize();
-        return tmp;
+        return unit_vector(mag_parser.get_vector(p, regions));
         }
 
     /** Evaluate the applied field as a function of time. This is only meaningful if field_type is
@@ -317,6 +315,18 @@ public:
         { return (field_time_parser.get_scalar(t_val))/mu0; }
 
 private:
+    /** Normalize the vector given by the user as the magnetization. Exit if it has no direction. */
+    static Eigen::Vector3d unit_vector(Eigen::Vector3d v)
+        {
+        v.stableNormalize();
+        if (!(v.norm() > 0.5))  // zero or nan
+            {
+            std::cerr << "Error: initial magnetization is zero or undefined.\n";
+            exit(1);
+            }
+        return v;
+        }
+
     using MetadataItem = std::pair<std::string, std::string>;  /**< type of userMetadata items */
 
     std::vector<MetadataItem> userMetadata;  /**< user-provided metadata for the output files */
-- 
2.43.0


From 687718d0e1e749cfd756eb403c9fde2d8e37a941 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:46:47 +0000
Subject: [PATCH 20/36] fix: precedence of the settings over the user's
 defaults

A region defined both in the user's default file and in the settings file was stored
twice, and the first definition was used, including for __default__. The boundary
conditions of __default__ and its documented uP were not inherited. An initial
magnetization or field given in one form did not replace the one given before in
another form, and recentering.direction was reset to Z when not given.
---
 src/settings.cpp | 56 ++++++++++++++++++++++++++++++++----------------
 1 file changed, 38 insertions(+), 18 deletions(-)

diff --git a/src/settings.cpp b/src/settings.cpp
index 027389a..30b7a64 100644
--- a/src/settings.cpp
+++ b/src/settings.cpp
@@ -390,8 +390,11 @@ void Settings::read(YAML::Node yaml)
                 bool has_Ms = false, has_Js = false;  // whether Ms and/or Js are defined
                 std::string name = it->first.as<std::string>();
                 YAML::Node volume = it->second;
-                Tetra::prm &p = paramTetra.emplace_back();
-                if (default_idx >= 0)
+                // Update the region if it is already known, otherwise start from the defaults.
+                int region_idx = findRegionIdx<Tetra::prm>(name);
+                Tetra::prm &p = (region_idx >= 0) ? paramTetra[region_idx]
+                                                  : paramTetra.emplace_back();
+                if (region_idx < 0 && default_idx >= 0)
                     { p = paramTetra[default_idx]; }
                 p.regName = name;
 
@@ -430,24 +433,34 @@ void Settings::read(YAML::Node yaml)
                 {
                 std::string name = it->first.as<std::string>();
                 YAML::Node surface = it->second;
-                Triangle::prm &p = paramTriangle.emplace_back();
-                if (default_idx >= 0)
-                    { p = paramTriangle[default_idx]; }
+                // Update the region if it is already known, otherwise start from the defaults.
+                int region_idx = findRegionIdx<Triangle::prm>(name);
+                Triangle::prm &p = (region_idx >= 0) ? paramTriangle[region_idx]
+                                                     : paramTriangle.emplace_back();
+                if (region_idx < 0)
+                    {
+                    if (default_idx >= 0)
+                        { p = paramTriangle[default_idx]; }
+                    else
+                        {
+                        p.jn = p.V = NAN;
+                        p.uP = p.s = Eigen::Vector3d(NAN, NAN, NAN);
+                        }
+                    }
                 p.regName = name;
                 assign(p.suppress_charges, surface["suppress_charges"]);
                 assign(p.Ks, surface["Ks"]);
                 assign(NORMALIZE, p.uk, surface["uk"]);
 
-                // J and V may be null, which we map to NAN.
-                if (!assign(p.jn, surface["jn"]))
+                // jn, V and s may be null, which we map to NAN.
+                if (!assign(p.jn, surface["jn"]) && surface["jn"].IsNull())
                     { p.jn = NAN; }
-                if (!assign(p.V, surface["V"]))
+                if (!assign(p.V, surface["V"]) && surface["V"].IsNull())
                     { p.V = NAN; }
                 if (!isnan(p.jn) && !isnan(p.V))
                     { error("A surface region cannot have both no-null J and V."); }
-                if (!assign(NORMALIZE, p.uP, surface["uP"]))
-                    { p.uP = Eigen::Vector3d(NAN,NAN,NAN); }
-                if (!assign(!NORMALIZE, p.s, surface["s"]))
+                assign(NORMALIZE, p.uP, surface["uP"]);
+                if (!assign(!NORMALIZE, p.s, surface["s"]) && surface["s"].IsNull())
                     { p.s = Eigen::Vector3d(NAN,NAN,NAN); }
                 }
             }  // mesh.surface_regions
@@ -456,6 +469,9 @@ void Settings::read(YAML::Node yaml)
     YAML::Node magnetization = yaml["initial_magnetization"];
     if (magnetization && !magnetization.IsNull())
         {
+        // Whatever its form, this overrides the previous initial magnetization.
+        restoreFileName.clear();
+        sM.clear();
         if (magnetization.IsScalar())
             {
             std::string s_mag = magnetization.as<std::string>();
@@ -486,14 +502,17 @@ void Settings::read(YAML::Node yaml)
     if (recentering && !recentering.IsNull())
         {
         assign(recenter, recentering["enable"]);
-        std::string direction = recentering["direction"].as<std::string>("Z");
-        if (direction.length() != 1 || direction[0] < 'X' || direction[0] > 'Z')
-            { error("recentering.direction should be X, Y or Z."); }
-        switch (direction[0])
+        std::string direction;
+        if (assign(direction, recentering["direction"]))
             {
-            case 'X': recentering_direction = IDX_X; break;
-            case 'Y': recentering_direction = IDX_Y; break;
-            case 'Z': recentering_direction = IDX_Z; break;
+            if (direction.length() != 1 || direction[0] < 'X' || direction[0] > 'Z')
+                { error("recentering.direction should be X, Y or Z."); }
+            switch (direction[0])
+                {
+                case 'X': recentering_direction = IDX_X; break;
+                case 'Y': recentering_direction = IDX_Y; break;
+                case 'Z': recentering_direction = IDX_Z; break;
+                }
             }
         assign(threshold, recentering["threshold"]);
         }  // recentering
@@ -511,6 +530,7 @@ void Settings::read(YAML::Node yaml)
             {
             if (field.size() != DIM)
                 { error("Bext should have three components."); }
+            sB.clear();
             sBx = field[0].as<std::string>();
             sBy = field[1].as<std::string>();
             sBz = field[2].as<std::string>();
-- 
2.43.0


From 8574bfe4c79a52c07de4ebf4166b8bb49d02efa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:47:08 +0000
Subject: [PATCH 21/36] fix: --verify printed settings that read back
 differently

jn was printed as J, which is ignored, undefined spin vectors as [nan, nan, nan], and
strings without the quotes or escapes they need.
---
 src/settings.cpp | 55 +++++++++++++++++++++++++++++-------------------
 1 file changed, 33 insertions(+), 22 deletions(-)

diff --git a/src/settings.cpp b/src/settings.cpp
index 30b7a64..47fcfca 100644
--- a/src/settings.cpp
+++ b/src/settings.cpp
@@ -89,17 +89,25 @@ static const std::string str(Eigen::Vector3d v)
     return std::string(buffer);
     }
 
+// Enclose a string in quotes, and escape it.
+static const std::string quote(std::string s)
+    {
+    replace(s, "\\", "\\\\");
+    replace(s, "\"", "\\\"");
+    replace(s, "\n", "\\n");
+    replace(s, "\r", "\\r");
+    return '"' + s + '"';
+    }
+
 // Stringify a string: if it contains a newline, convert it to a multiline string in "literal style"
-// (introduced by '|'). Otherwise enclose it in quotes, and escape embedded quotes.
+// (introduced by '|'). Otherwise enclose it in quotes.
 // `level` is the indentation level of the property whose value is being stringified.
 static const std::string str(std::string s, const int level = 0)
     {
-    // If it doesn't have a newline, quote it.
-    if (s.find('\n') == s.npos)
-        {
-        replace(s, "\"", "\\\"");  // escape embedded quotes
-        return '"' + s + '"';
-        }
+    // If it doesn't have a newline, or a literal would not represent it faithfully, quote it.
+    if (s.find('\n') == s.npos || s.find('\r') != s.npos || s.find_first_of(" \t\n") == 0
+        || s.back() != '\n' || s[s.size() - 2] == '\n')
+        { return quote(s); }
 
     // Indentation to be added to each line.
     int indent_size = (level + 1) * 2;  // the value is indented one level more than the property
@@ -109,8 +117,7 @@ static const std::string str(std::string s, const int level = 0)
     s.insert(0, "|\n");
 
     // Remove trailing eol.
-    if (s.back() == '\n')
-        { s.resize(s.size() - 1); }
+    s.resize(s.size() - 1);
 
     // Add indentation.
     replace(s, "\n", "\n" + indent);
@@ -155,28 +162,28 @@ void Settings::dumpTemplate()
 void Settings::toYaml()
     {
     std::cout << "outputs:\n";
-    std::cout << "  directory: " << r_path_output_dir << "\n";
-    std::cout << "  file_basename: " << simName << "\n";
+    std::cout << "  directory: " << quote(r_path_output_dir) << "\n";
+    std::cout << "  file_basename: " << quote(simName) << "\n";
     std::cout << "  evol_time_step: " << time_step << "\n";
     std::cout << "  final_time: " << tf << "\n";
-    std::cout << "  evol_columns:\n";
+    std::cout << "  evol_columns:" << (evol_columns.empty() ? " []\n" : "\n");
     for (auto it = evol_columns.begin(); it != evol_columns.end(); ++it)
-        { std::cout << "    - " << *it << "\n"; }
+        { std::cout << "    - " << quote(*it) << "\n"; }
 
     std::cout << "  mag_config_every: " << save_period << "\n";
     std::cout << "  metadata:\n";
     for (auto it = userMetadata.begin(); it != userMetadata.end(); ++it)
-        { std::cout << "    " << it->first << ": " << str(it->second, 2) << '\n'; }
+        { std::cout << "    " << quote(it->first) << ": " << str(it->second, 2) << '\n'; }
 
     std::cout << "mesh:\n";
-    std::cout << "  filename: " << pbName << "\n";
+    std::cout << "  filename: " << quote(pbName) << "\n";
     std::cout << "  length_unit: " << _scale << "\n";
     std::cout << "  volume_regions:\n";
     for (auto it = paramTetra.begin(); it != paramTetra.end(); ++it)
         {
         if (it->regName == "__default__")  // skip
             { continue; }
-        std::cout << "    " << it->regName << ":\n";
+        std::cout << "    " << quote(it->regName) << ":\n";
         std::cout << "      Ae: " << it->A << "\n";
         std::cout << "      Ms: " << it->Ms << "\n";
         std::cout << "      K: " << it->K << "\n";
@@ -201,12 +208,12 @@ void Settings::toYaml()
         {
         if (it->regName == "__default__")  // skip
             { continue; }
-        std::cout << "    " << it->regName << ":\n";
+        std::cout << "    " << quote(it->regName) << ":\n";
         std::cout << "      suppress_charges: " << str(it->suppress_charges) << "\n";
         std::cout << "      Ks: " << it->Ks << "\n";
         if (it->Ks != 0)
             { std::cout << "      uk: " << str(it->uk) << "\n"; }
-        std::cout <<  "      J:";
+        std::cout <<  "      jn:";
         if (isnan(it->jn))
             { std::cout << "\n"; }
         else
@@ -219,16 +226,20 @@ void Settings::toYaml()
         if (spin_acc)
             {
             std::cout << "      uP: " << str(it->uP) << "\n";
-            std::cout << "      s: " << str(it->s) << "\n";
+            std::cout << "      s:";
+            if (isnan(it->s.norm()))
+                { std::cout << "\n"; }
+            else
+                { std::cout << ' ' << str(it->s) << "\n"; }
             }
         }
     std::cout << "initial_magnetization: ";
     if (!sM.empty())
         { std::cout << str(sM) << "\n"; }
     else if (restoreFileName.empty())
-        { std::cout << "[\"" << sMx << "\", \"" << sMy << "\", \"" << sMz << "\"]\n"; }
+        { std::cout << '[' << quote(sMx) << ", " << quote(sMy) << ", " << quote(sMz) << "]\n"; }
     else
-        { std::cout << restoreFileName << "\n"; }
+        { std::cout << quote(restoreFileName) << "\n"; }
     std::cout << "initial_time:";
     if (isnan(initial_time))
         { std::cout << '\n'; }
@@ -254,7 +265,7 @@ void Settings::toYaml()
     else if (!sB.empty())
         { std::cout << str(sB) << "\n"; }
     else
-        { std::cout << "[\"" << sBx << "\", \"" << sBy << "\", \"" << sBz << "\"]\n"; }
+        { std::cout << '[' << quote(sBx) << ", " << quote(sBy) << ", " << quote(sBz) << "]\n"; }
     std::cout << "spin_accumulation:\n";
     std::cout << "  enable: " << str(spin_acc) << "\n";
     if (spin_acc)
-- 
2.43.0


From 70293f0b8442f326c67b60d2b64c658013ca424c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:47:08 +0000
Subject: [PATCH 22/36] fix: --verify succeeded on a missing settings file

---
 src/main.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/main.cpp b/src/main.cpp
index e17436b..75b4145 100644
--- a/src/main.cpp
+++ b/src/main.cpp
@@ -188,7 +188,11 @@ std::string parseOptions(Settings &settings, int argc, char *argv[], unsigned in
     if (verify)
         {
         settings.read(get_user_defaults_filename());
-        settings.read(filename);
+        if (!settings.read(filename))
+            {
+            std::cerr << "Error: no settings found.\n";
+            exit(1);
+            }
         settings.toYaml();
         exit(0);
         }
-- 
2.43.0


From f2b3e45b30dca79f3048ed8f1729782e213f98fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:47:27 +0000
Subject: [PATCH 23/36] fix: the electric potential file ignored
 outputs.directory

It was written to the working directory, and reported as written only on failure.
---
 src/electrostatSolver.cpp      | 6 +++---
 src/spinAccumulationSolver.cpp | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/electrostatSolver.cpp b/src/electrostatSolver.cpp
index e40a2b4..c9ae83a 100644
--- a/src/electrostatSolver.cpp
+++ b/src/electrostatSolver.cpp
@@ -84,8 +84,8 @@ void electrostatSolver::compute(const bool verbose, const std::string& V_fileNam
         {
         if (!V_fileName.empty())
             {
-            bool iznogood = save(V_fileName, "## columns: index\tV\n");
-            if (verbose && iznogood)
+            bool saved = save(V_fileName, "## columns: index\tV\n");
+            if (verbose && saved)
                 { std::cout << "file " << V_fileName << " written.\n"; }
             }
         }
@@ -153,7 +153,7 @@ bool electrostatSolver::save(const std::string &V_fileName, const std::string &m
         fout << i << '\t' << V[_i] << "\n";
         }
     fout.close();
-    return !(fout.good());
+    return fout.good();
     }
 
 double electrostatSolver::getSigma(const Tetra::Tet &tet) const
diff --git a/src/spinAccumulationSolver.cpp b/src/spinAccumulationSolver.cpp
index 6f16937..90ad2f2 100644
--- a/src/spinAccumulationSolver.cpp
+++ b/src/spinAccumulationSolver.cpp
@@ -24,7 +24,7 @@ using namespace Nodes;
             pot_solver.V.resize(_msh.getNbNodes());
             std::string V_fileName("");
             if(mySettings.V_file)
-                { V_fileName = mySettings.getSimName() + "_V.sol"; }
+                { V_fileName = mySettings.r_path_output_dir + '/' + mySettings.getSimName() + "_V.sol"; }
             pot_solver.compute(mySettings.verbose, V_fileName);
 
             V = pot_solver.V;
-- 
2.43.0


From 7fb3e5c6c9bf4a95202da3acd7ac147b03ca3059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:48:02 +0000
Subject: [PATCH 24/36] fix: recentering with non-magnetic regions

The nearest node could be a non-magnetic one, whose magnetization is nan.
---
 src/fem.h           | 15 +++++++++++----
 src/recentering.cpp | 12 +++++++-----
 2 files changed, 18 insertions(+), 9 deletions(-)

diff --git a/src/fem.h b/src/fem.h
index 7654cec..86ac847 100644
--- a/src/fem.h
+++ b/src/fem.h
@@ -69,11 +69,16 @@ public:
                 std::cout << "  points allocated\n";
                 }
 
+            // Only the magnetic nodes have a magnetization that can be moved elsewhere.
             for (int i = 0; i < msh.getNbNodes(); i++)
                 {
-                this->pts[i][0] = msh.getNode_p(i).x();
-                this->pts[i][1] = msh.getNode_p(i).y();
-                this->pts[i][2] = msh.getNode_p(i).z();
+                if (!msh.magNode[i])
+                    { continue; }
+                const int j = pts_node.size();
+                pts_node.push_back(i);
+                this->pts[j][0] = msh.getNode_p(i).x();
+                this->pts[j][1] = msh.getNode_p(i).y();
+                this->pts[j][2] = msh.getNode_p(i).z();
                 }
 
             if (mySets.verbose)
@@ -81,7 +86,7 @@ public:
                 std::cout << "  building kd_tree\n";
                 }
 
-            kdtree = new ANNkd_tree(pts, msh.getNbNodes(), Nodes::DIM);
+            kdtree = new ANNkd_tree(pts, pts_node.size(), Nodes::DIM);
             if (!kdtree)
                 {
                 std::cerr << "ANN memory error while allocating kd_tree\n";
@@ -195,6 +200,8 @@ private:
                            point in the mesh  */
     ANNpointArray pts;  /**< container for the building of the kdtree (handled by ANN library) */
 
+    std::vector<int> pts_node; /**< node index of each point of the kdtree */
+
     /** find direction of motion of DW */
     void direction(enum Nodes::index idx_dir /**< [in] */);
 
diff --git a/src/recentering.cpp b/src/recentering.cpp
index 4a77176..b2ca57a 100644
--- a/src/recentering.cpp
+++ b/src/recentering.cpp
@@ -22,7 +22,7 @@ void Fem::direction(const enum index idx_dir)
     queryPt[2] = qPt.z();
 
     kdtree->annkSearch(queryPt, NPS, nnIdx, dists, 0.);
-    int ns = nnIdx[0];
+    int ns = pts_node[nnIdx[0]];
     double u2L = msh.getNode_u(ns)(idx_dir);
 
     /* right */
@@ -32,7 +32,7 @@ void Fem::direction(const enum index idx_dir)
     queryPt[2] = qPt.z();
 
     kdtree->annkSearch(queryPt, NPS, nnIdx, dists, 0.);
-    ns = nnIdx[0];
+    ns = pts_node[nnIdx[0]];
 
     double u2R = msh.getNode_u(ns)(idx_dir);
     if (u2L * u2R > 0.)
@@ -68,7 +68,7 @@ bool Fem::recenter(double thres, const Nodes::index idx_dir)
     queryPt[2] = qPt.z();
 
     kdtree->annkSearch(queryPt, NPS, nnIdx, dists, 0.);
-    ns = nnIdx[0];
+    ns = pts_node[nnIdx[0]];
     double u2L = msh.getNode_u(ns)(idx_dir);
 
     // right frontier
@@ -78,7 +78,7 @@ bool Fem::recenter(double thres, const Nodes::index idx_dir)
     queryPt[2] = qPt.z();
 
     kdtree->annkSearch(queryPt, NPS, nnIdx, dists, 0.);
-    ns = nnIdx[0];
+    ns = pts_node[nnIdx[0]];
 
     double u2R = msh.getNode_u(ns)(idx_dir);
     if (u2L * u2R > 0)
@@ -92,6 +92,8 @@ bool Fem::recenter(double thres, const Nodes::index idx_dir)
 
     for (int i = 0; i < msh.getNbNodes(); i++)
         {
+        if (!msh.magNode[i])
+            { continue; }
         Eigen::Vector3d p = msh.getNode_p(i) + D_i * p_dir;
 
         if (p(idx_dir) - msh.c(idx_dir) > +0.5 * msh.l(idx_dir))
@@ -108,7 +110,7 @@ bool Fem::recenter(double thres, const Nodes::index idx_dir)
         queryPt[2] = p.z();
         kdtree->annkSearch(queryPt, NPS, nnIdx, dists, 0.);
 
-        int ns = nnIdx[0];
+        int ns = pts_node[nnIdx[0]];
         msh.set_node_u0(i, msh.getNode_u(ns));
         msh.set_node_zero_v(i);
         }
-- 
2.43.0


From c0e765719168aa687f41e2f07f043f07d1336d06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:49:01 +0000
Subject: [PATCH 25/36] fix: sub-surfaces of a Cuboid mesh

The elements of a sub-surface were written with the name of the region instead of its
tag, in the same entity as the outer surface, and were listed twice: the mesh file was
not readable.
---
 python-modules/meshMaker.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/python-modules/meshMaker.py b/python-modules/meshMaker.py
index c3c4897..87e0ef8 100644
--- a/python-modules/meshMaker.py
+++ b/python-modules/meshMaker.py
@@ -550,7 +550,12 @@ class Cuboid(object):
         return(nbElem)
         
     def add_sub_surface(self,subSurfRegName,func):
+        """
+        move to a surface region of their own the triangles of the outer surface whose three nodes
+        satisfy the predicate func(x,y,z)
+        """
         tempo_subSurf = []
+        tempo_Tri = []
         for i in range(0,len(self.Tri)):
             f = self.Tri[i]
             idxA = f[0]
@@ -562,6 +567,9 @@ class Cuboid(object):
             
             if(func(A[1],A[2],A[3]) and func(B[1],B[2],B[3]) and func(C[1],C[2],C[3]) ):
                 tempo_subSurf.append( [idxA,idxB,idxC] )
+            else:
+                tempo_Tri.append(f)
+        self.Tri = tempo_Tri
         self.subSurf.append( tempo_subSurf )
         self.subSurfRegName.append(subSurfRegName)
 
@@ -603,7 +611,8 @@ class Cuboid(object):
         for i in range(0,len(self.subSurf)):
             for j in range(0,len(self.subSurf[i])):
                 s = self.stringTri(self.subSurf[i],j)
-                meshFile.write( str(idx)+"\t2\t2\t" + self.subSurfRegName[i] + "\t1\t"+ s + "\n" )
+                meshFile.write( str(idx)+"\t2\t2\t" + str(surfRegionTag + 1 + i) + "\t" + str(2 + i)
+                        + "\t"+ s + "\n" )
                 idx += 1
         meshFile.write("$EndElements\n")
         meshFile.close()
-- 
2.43.0


From 175b6fc5b1201ff28348dcef33b332b33a1a1680 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:49:01 +0000
Subject: [PATCH 26/36] fix: syntax error in fg-h5extract

---
 tools/fg-h5extract | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tools/fg-h5extract b/tools/fg-h5extract
index 41f523b..6f8789e 100755
--- a/tools/fg-h5extract
+++ b/tools/fg-h5extract
@@ -87,8 +87,8 @@ def main():
         fileName = inputs['h5FileName']
         f = h5py.File(fileName,'r')
 
-        if ((inputs['groupname'] == 'emptyGroupName')or(inputs['groupname'] in f.keys()))
-                and inputs['view']:
+        if (((inputs['groupname'] == 'emptyGroupName')or(inputs['groupname'] in f.keys()))
+                and inputs['view']):
             view(f,inputs['groupname'])
         elif not(inputs['groupname'] in f.keys()):
             print("error: group " + inputs['groupname'] + " does not exist in file "
-- 
2.43.0


From a73c16486dab5696ff864c7bced57ad6d70a3445 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:49:01 +0000
Subject: [PATCH 27/36] fix: fg-configurator: missing ~/.config, names with
 YAML special characters

The directory could not be created when its parent does not exist either, and an
author such as "Doe: John" or "#1" gave a default file that cannot be read, or lost
the value.
---
 tools/fg-configurator | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/tools/fg-configurator b/tools/fg-configurator
index d0ccdab..9326a19 100755
--- a/tools/fg-configurator
+++ b/tools/fg-configurator
@@ -18,6 +18,7 @@
 
 import sys
 import os
+import json
 
 from multiprocessing import cpu_count
 maxNbThreads = cpu_count()
@@ -31,7 +32,7 @@ def writeYaml(fileName,metadata):
     found = os.path.exists(configFilePath)
     if not found:
         try:
-            os.mkdir(configFilePath)
+            os.makedirs(configFilePath)
         except PermissionError:
             print("not authorized to create", configFilePath)
             sys.exit()
@@ -45,11 +46,11 @@ def writeYaml(fileName,metadata):
             "outputs:\n"
             "  metadata:\n")
         if metadata['Author']:
-            file.write(f"    Author: {metadata['Author']}\n")
+            file.write(f"    Author: {json.dumps(metadata['Author'], ensure_ascii=False)}\n")
         if metadata['Affiliation']:
-            file.write(f"    Affiliation: {metadata['Affiliation']}\n")
+            file.write(f"    Affiliation: {json.dumps(metadata['Affiliation'], ensure_ascii=False)}\n")
         if metadata['Licence'] != "None":
-            file.write(f"    Licence: {metadata['Licence']}\n")
+            file.write(f"    Licence: {json.dumps(metadata['Licence'], ensure_ascii=False)}\n")
     message = outputFile + " written."
 
     return message
-- 
2.43.0


From f02a2663533f304e3ef73d1a52aa812470953dea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:21:30 +0000
Subject: [PATCH 28/36] fix: an infinite right-hand side was reported as
 converged

---
 src/algebra/iter.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/algebra/iter.h b/src/algebra/iter.h
index f4095de..3238f85 100644
--- a/src/algebra/iter.h
+++ b/src/algebra/iter.h
@@ -144,7 +144,7 @@ class iteration
     bool converged()
         {
         bool cv(false);
-        if (std::isnan(res))
+        if (!std::isfinite(res))
             { status = CANNOT_CONVERGE; }
         else
             {
-- 
2.43.0


From 410345bb81e8a0ef709628ca58e228e5b63555d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:10:57 +0000
Subject: [PATCH 29/36] fix: settings sections that are not maps were silently
 ignored

---
 src/settings.cpp | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/settings.cpp b/src/settings.cpp
index 47fcfca..92e8c2b 100644
--- a/src/settings.cpp
+++ b/src/settings.cpp
@@ -324,6 +324,8 @@ std::string Settings::solMetadata(const double t) const
 
 void Settings::read(YAML::Node yaml)
     {
+    if (!yaml.IsMap())
+        { error("the settings should be a map."); }
     YAML::Node outputs = yaml["outputs"];
     if (outputs && !outputs.IsNull())
         {
@@ -401,6 +403,8 @@ void Settings::read(YAML::Node yaml)
                 bool has_Ms = false, has_Js = false;  // whether Ms and/or Js are defined
                 std::string name = it->first.as<std::string>();
                 YAML::Node volume = it->second;
+                if (!volume.IsNull() && !volume.IsMap())
+                    { error("each volume region should be a map."); }
                 // Update the region if it is already known, otherwise start from the defaults.
                 int region_idx = findRegionIdx<Tetra::prm>(name);
                 Tetra::prm &p = (region_idx >= 0) ? paramTetra[region_idx]
@@ -444,6 +448,8 @@ void Settings::read(YAML::Node yaml)
                 {
                 std::string name = it->first.as<std::string>();
                 YAML::Node surface = it->second;
+                if (!surface.IsNull() && !surface.IsMap())
+                    { error("each surface region should be a map."); }
                 // Update the region if it is already known, otherwise start from the defaults.
                 int region_idx = findRegionIdx<Triangle::prm>(name);
                 Triangle::prm &p = (region_idx >= 0) ? paramTriangle[region_idx]
@@ -512,6 +518,8 @@ void Settings::read(YAML::Node yaml)
     YAML::Node recentering = yaml["recentering"];
     if (recentering && !recentering.IsNull())
         {
+        if (!recentering.IsMap())
+            { error("recentering should be a map."); }
         assign(recenter, recentering["enable"]);
         std::string direction;
         if (assign(direction, recentering["direction"]))
@@ -572,6 +580,8 @@ void Settings::read(YAML::Node yaml)
     YAML::Node spAcc = yaml["spin_accumulation"];
     if (spAcc && !spAcc.IsNull())
         {
+        if (!spAcc.IsMap())
+            { error("spin_accumulation should be a map."); }
         assign(spin_acc, spAcc["enable"]);
         assign(V_file, spAcc["V_file"]);
 	    }  // spin_accumulation
@@ -583,6 +593,8 @@ void Settings::read(YAML::Node yaml)
     YAML::Node solver = yaml["demagnetizing_field_solver"];
     if (solver && !solver.IsNull())
         {
+        if (!solver.IsMap())
+            { error("demagnetizing_field_solver should be a map."); }
         assign(scalfmmNbTh, solver["nb_threads"]);
         if (scalfmmNbTh <= 0)
             { scalfmmNbTh = available_cpu_count; }
@@ -591,6 +603,8 @@ void Settings::read(YAML::Node yaml)
     solver = yaml["finite_element_solver"];
     if (solver && !solver.IsNull())
         {
+        if (!solver.IsMap())
+            { error("finite_element_solver should be a map."); }
         assign(MAXITER, solver["max(iter)"]);
         assign(TOL,solver["tolerance"]);
         }  // finite_element_solver
@@ -598,6 +612,8 @@ void Settings::read(YAML::Node yaml)
     YAML::Node time_integration = yaml["time_integration"];
     if (time_integration && !time_integration.IsNull())
         {
+        if (!time_integration.IsMap())
+            { error("time_integration should be a map."); }
         assign(DUMAX, time_integration["max(du)"]);
         assign(dt_min, time_integration["min(dt)"]);
         assign(dt_max, time_integration["max(dt)"]);
-- 
2.43.0


From 28d4a43065ae6050658f505b54b9b35c1843406a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:24:44 +0000
Subject: [PATCH 30/36] fix: silent exit when the electric potential solver
 fails

---
 src/electrostatSolver.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/electrostatSolver.cpp b/src/electrostatSolver.cpp
index c9ae83a..7ab6a80 100644
--- a/src/electrostatSolver.cpp
+++ b/src/electrostatSolver.cpp
@@ -90,7 +90,10 @@ void electrostatSolver::compute(const bool verbose, const std::string& V_fileNam
             }
         }
     else
-        { exit(1); }
+        {
+        std::cerr << "Error: electrostatic potential solver failed: " << iter.infos() << "\n";
+        exit(1);
+        }
     }
 
 bool electrostatSolver::solve(void)
-- 
2.43.0


From cb573fa4725bec72ab9c530898f3b1cfd0982c4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:48:25 +0000
Subject: [PATCH 31/36] fix: no message on the error stream when the output
 cannot be created

---
 src/main.cpp             | 1 +
 src/time_integration.cpp | 2 +-
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/main.cpp b/src/main.cpp
index 75b4145..56b3b0d 100644
--- a/src/main.cpp
+++ b/src/main.cpp
@@ -55,6 +55,7 @@ static void create_dir_if_needed(const std::string& dirname)
         else
             {
             std::cout << "exists and is not a directory.\n";
+            std::cerr << name << ": Not a directory\n";
             exit(1);
             }
         }
diff --git a/src/time_integration.cpp b/src/time_integration.cpp
index 2b0f57c..2301637 100644
--- a/src/time_integration.cpp
+++ b/src/time_integration.cpp
@@ -144,7 +144,7 @@ int Fem::time_integration(Settings &settings /**< [in] */, LinAlgebra &linAlg /*
 
     if (fout.fail())
         {
-        std::cout << "cannot open file " << str << std::endl;
+        std::cerr << "cannot open file " << str << std::endl;
         SYSTEM_ERROR;
         }
 
-- 
2.43.0


From 86a9365ea1ecccecfd642d3f3a59220709bceac0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:48:25 +0000
Subject: [PATCH 32/36] fix: settings file that cannot be read (a directory)
 aborted the program

---
 src/settings.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/settings.cpp b/src/settings.cpp
index 92e8c2b..25969ed 100644
--- a/src/settings.cpp
+++ b/src/settings.cpp
@@ -659,5 +659,9 @@ bool Settings::read(const std::string& filename)
         {
         error((filename + ": " + e.what()).c_str());
         }
+    catch (const std::ios_base::failure &e)  // can be opened but not read, like a directory
+        {
+        error((filename + ": " + e.what()).c_str());
+        }
     return true;
     }
-- 
2.43.0


From 246816f23b9a49b170d018a0e6c5119e5e6b43fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:53:08 +0000
Subject: [PATCH 33/36] fix: no output when more than 2^31 rows are requested

---
 src/time_integration.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/time_integration.cpp b/src/time_integration.cpp
index 2301637..1f992e0 100644
--- a/src/time_integration.cpp
+++ b/src/time_integration.cpp
@@ -156,14 +156,14 @@ int Fem::time_integration(Settings &settings /**< [in] */, LinAlgebra &linAlg /*
     int status(0);     // exit status
     double t_initial = t_prm.get_t();
     double t_step = settings.time_step;
-    int step_count = std::round((t_prm.tf - t_initial) / t_step);
+    double step_count = std::round((t_prm.tf - t_initial) / t_step);  // may not fit in an int
     TimeStepper stepper(t_prm.get_dt(), t_prm.DTMIN, t_prm.DTMAX);
     Stats stats;
     stats.max_angle = msh.max_angle();
 
     // Loop over the visible time steps, i.e. those that will appear on the output file.
     nt = 0;
-    for (int step_nb = 0; step_nb <= step_count; step_nb++)
+    for (long step_nb = 0; step_nb <= step_count; step_nb++)
         {
         double t_target = t_initial + step_nb * t_step;
         // Loop over the integration time steps within a visible step.
-- 
2.43.0


From fe1c70265352e63af9cffaa6c29f49a663b5e684 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:32 +0000
Subject: [PATCH 34/36] fix: mesh entity without elements ended in a
 segmentation fault

---
 src/read.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/read.cpp b/src/read.cpp
index 9b7a736..1cff6f8 100644
--- a/src/read.cpp
+++ b/src/read.cpp
@@ -130,6 +130,7 @@ void mesh::readTetraedrons()
                     std::vector<std::vector<std::size_t> > elemTags, elemNodeTags;
                     gmsh::model::mesh::getElements(elemTypes, elemTags, elemNodeTags,
                             p.first, p.second);
+                    if (elemTypes.empty()) continue;  // entity without elements
                     if (all_elems_are<TYP_ELEM_TETRAEDRON>(elemTypes))
                         { // all elements are tetrahedrons
                         int idx = settings.findRegionIdx<Tetra::prm>(n);
@@ -184,6 +185,7 @@ void mesh::readTriangles()
                     std::vector<std::vector<std::size_t> > elemTags, elemNodeTags;
                     gmsh::model::mesh::getElements(elemTypes, elemTags, elemNodeTags,
                             p.first, p.second);
+                    if (elemTypes.empty()) continue;  // entity without elements
                     if (all_elems_are<TYP_ELEM_TRIANGLE>(elemTypes))
                         { // all elements are triangles
                         int idx = settings.findRegionIdx<Triangle::prm>(name);
-- 
2.43.0


From 00f98ef1b11d5f45732a8657021a9ec69fb59791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:26:42 +0000
Subject: [PATCH 35/36] fix: fg-gensol: region names with an apostrophe made
 init_cfg.py invalid

---
 tools/fg-gensol | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/fg-gensol b/tools/fg-gensol
index 88903dd..1e72833 100755
--- a/tools/fg-gensol
+++ b/tools/fg-gensol
@@ -26,7 +26,7 @@ def autogenerate_init_cfg(regions):
     
     region_lines = []
     for region_name in sorted(regions.keys()):
-        line = f"        '{region_name}': lambda x, y, z: [0, 0, 1],"
+        line = f"        {region_name!r}: lambda x, y, z: [0, 0, 1],"
         region_lines.append(line)
 
     module_content = [
-- 
2.43.0


From 7e98dbfa2d57adbe59a5871f11c0f13eaec8cba3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:27:02 +0000
Subject: [PATCH 36/36] fix: .sol files extracted from hdf5 lacked the node
 index and some columns

---
 tools/fg-h5extract | 6 +++++-
 tools/fg-sol2hdf5  | 6 +++---
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/tools/fg-h5extract b/tools/fg-h5extract
index 6f8789e..92815ca 100755
--- a/tools/fg-h5extract
+++ b/tools/fg-h5extract
@@ -23,7 +23,11 @@ def writeFile(fileName,whatToWrite,metadata):
         np.savetxt(fileName,whatToWrite,delimiter='\t',newline='\n',header=metadata,comments='')
 
 def writeSolFile(fileName,dataSolFile):
-    writeFile( fileName, dataSolFile, buildSolMetadata(dataSolFile))
+    # the node index is not stored in the dataset
+    values = np.asarray(dataSolFile)
+    table = np.column_stack((np.arange(len(values)), values))
+    np.savetxt(fileName,table,fmt=['%d']+['%.18e']*(table.shape[1]-1),delimiter='\t',newline='\n',
+            header=buildSolMetadata(dataSolFile),comments='')
 
 def viewGroup(h5file,groupName):
     print(groupName)
diff --git a/tools/fg-sol2hdf5 b/tools/fg-sol2hdf5
index 986e910..83d864b 100755
--- a/tools/fg-sol2hdf5
+++ b/tools/fg-sol2hdf5
@@ -114,8 +114,8 @@ def main():
         metadata = readMetadataSolFile(sol_f)
         
         with open(sol_f,'r') as f:
-            my_data = np.genfromtxt(f,delimiter='\t',comments='#',dtype=np.float64,
-                    usecols=(1,2,3,4))
+            # all the columns but the first one, which is the node index
+            my_data = np.loadtxt(f,delimiter='\t',comments='#',dtype=np.float64,ndmin=2)[:,1:]
             dset = g.create_dataset("solFile"+sub_s, data = my_data)
 
         for k in metadata.items():
@@ -131,7 +131,7 @@ def main():
         evolFile.close()
     
     with open(evolFileName,'r') as f:
-        my_evol_data = np.genfromtxt(f,delimiter='\t',comments='#',dtype=np.float64) 
+        my_evol_data = np.loadtxt(f,delimiter='\t',comments='#',dtype=np.float64,ndmin=2)
     
     evol_dset = g.create_dataset("evolFile",data = my_evol_data)
     evol_dset.attrs['metadata'] = evolMetadata
-- 
2.43.0

