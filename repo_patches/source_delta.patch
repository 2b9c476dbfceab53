From 77d5374bd34c72ef3887062b5add4ba7b9491cb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:55:16 +0000
Subject: [PATCH 01/42] fix: VectorTemplate::infNorm propagates NaN instead of
 ignoring it

---
 include/ode_num_int/la/VectorTemplate.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/ode_num_int/la/VectorTemplate.h b/include/ode_num_int/la/VectorTemplate.h
index 3d39666..4fa7769 100644
--- a/include/ode_num_int/la/VectorTemplate.h
+++ b/include/ode_num_int/la/VectorTemplate.h
@@ -399,8 +399,11 @@ class VectorTemplate : public D
         value_type infNorm() const
             {
             value_type result = value_type ();
-            for( const auto& v : *this )
-                result = std::max( result, std::fabs( v ) );
+            for( const auto& v : *this ) {
+                value_type a = std::fabs( v );
+                if( a > result   ||   a != a )
+                    result = a; // Note: once result is NaN, it stays NaN
+                }
             return result;
             }
 
-- 
2.43.0


From b5e1ae4c7842125744d49d990cf0368ee9bc3297 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:55:31 +0000
Subject: [PATCH 02/42] fix: sparse Transpose/Block proxies: (row, column)
 access, transposed size; v*m has as many entries as m has columns

---
 include/ode_num_int/la/SparseMatrixTemplate.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/ode_num_int/la/SparseMatrixTemplate.h b/include/ode_num_int/la/SparseMatrixTemplate.h
index 52c865f..b01ed46 100644
--- a/include/ode_num_int/la/SparseMatrixTemplate.h
+++ b/include/ode_num_int/la/SparseMatrixTemplate.h
@@ -340,7 +340,7 @@ class Block : public SparseMatrixTypes< typename D::element_type >
             }
 
         element_type get( unsigned int r, unsigned int c ) const {
-            return m_source.get( r, c );
+            return get( Index( r, c ) );
             }
 
         element_type operator[]( const Index& index ) const {
@@ -359,7 +359,7 @@ class Block : public SparseMatrixTypes< typename D::element_type >
             return m_source.at( sourceIndex(index) );
             }
 
-        element_type at( unsigned int r, unsigned int c ) const {
+        element_type& at( unsigned int r, unsigned int c ) {
             return at( Index( r, c ) );
             }
 
@@ -548,7 +548,7 @@ class Transpose : public SparseMatrixTypes< typename D::element_type >
             }
 
         element_type get( unsigned int r, unsigned int c ) const {
-            return m_source.get( r, c );
+            return get( Index( r, c ) );
             }
 
         element_type operator[]( const Index& index ) const {
@@ -567,7 +567,7 @@ class Transpose : public SparseMatrixTypes< typename D::element_type >
             return m_source.at( transposedIndex(index) );
             }
 
-        element_type at( unsigned int r, unsigned int c ) const {
+        element_type& at( unsigned int r, unsigned int c ) {
             return at( Index( r, c ) );
             }
 
@@ -998,7 +998,7 @@ class SparseMatrixTemplate : public D
             {
             return SparseMatrixTemplate< SparseMatrixProxy::Transpose< D > >(
                         SparseMatrixProxy::Transpose< D >( *this ),
-                        m_size );
+                        Index( m_size.second, m_size.first ) );
             }
 
         SparseMatrixTemplate<matrix_data_type> clone() const {
@@ -1075,7 +1075,7 @@ template< class DM, class DV >
 inline VectorTemplate<typename DV::vector_data_type> operator*( const VectorTemplate<DV>& v, const SparseMatrixTemplate<DM>& m )
     {
     ASSERT( v.size() == m.size().first );
-    VectorTemplate<typename DV::vector_data_type> result( m.size().first );
+    VectorTemplate<typename DV::vector_data_type> result( m.size().second );
     m.mulVectLeft( v.begin(), result.begin() );
     return result;
     }
-- 
2.43.0


From 830fad5f16c80748962cb436490ffffc627065e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:55:31 +0000
Subject: [PATCH 03/42] fix: sparse matrix infNorm propagates NaN instead of
 ignoring it

---
 include/ode_num_int/la/SparseMatrixTemplate.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/ode_num_int/la/SparseMatrixTemplate.h b/include/ode_num_int/la/SparseMatrixTemplate.h
index b01ed46..0c79028 100644
--- a/include/ode_num_int/la/SparseMatrixTemplate.h
+++ b/include/ode_num_int/la/SparseMatrixTemplate.h
@@ -1008,8 +1008,11 @@ class SparseMatrixTemplate : public D
         element_type infNorm() const
             {
             element_type result = element_type ();
-            for( const auto& v : *this )
-                result = std::max( result, std::fabs( v.second ) );
+            for( const auto& v : *this ) {
+                element_type a = std::fabs( v.second );
+                if( a > result   ||   a != a )
+                    result = a; // Note: once result is NaN, it stays NaN
+                }
             return result;
             }
 
-- 
2.43.0


From 8204e4beb112d12c9c25064a4e3af7e1a5dd2cec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:55:42 +0000
Subject: [PATCH 04/42] fix: SparseMatrixFastData keeps its elements sorted
 when assigned from an unordered source

---
 include/ode_num_int/la/SparseMatrixTemplate.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/ode_num_int/la/SparseMatrixTemplate.h b/include/ode_num_int/la/SparseMatrixTemplate.h
index 0c79028..9329cd4 100644
--- a/include/ode_num_int/la/SparseMatrixTemplate.h
+++ b/include/ode_num_int/la/SparseMatrixTemplate.h
@@ -301,6 +301,12 @@ class SparseMatrixFastData : public SparseMatrixTypes< ElementType >
             auto end = that.end();
             m_data.resize( std::distance( begin, end ) );
             std::copy( begin, end, m_data.begin() );
+            // Element access relies on the order, which a proxy (e.g. Transpose) might not provide
+            std::sort( m_data.begin(), m_data.end(), &matrix_data_type::compareElements );
+            }
+
+        static bool compareElements( const data_element_type& l, const data_element_type& r ) {
+            return l.first < r.first;
             }
 
         static bool compare( const data_element_type& l, const Index& r ) {
-- 
2.43.0


From 936d496195239f4371b023ac9c03e4c25a323664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:01:21 +0000
Subject: [PATCH 05/42] fix: LUFactorizer takes the fill-in of U into account
 when computing last columns of rows

---
 include/ode_num_int/lu/LUFactorizer.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/ode_num_int/lu/LUFactorizer.h b/include/ode_num_int/lu/LUFactorizer.h
index afd1744..d6b23ba 100644
--- a/include/ode_num_int/lu/LUFactorizer.h
+++ b/include/ode_num_int/lu/LUFactorizer.h
@@ -84,6 +84,11 @@ class LUFactorizer
                     throw cxx::exception("Invalid matrix stencil: the stencil does not cover the diagonal");
                 }
 
+            // Account for the fill-in of U: column c is stored from row m_q[c] down to the diagonal
+            for( unsigned int c=0; c<n; ++c )
+                for( unsigned int r=m_q[c]; r<=c; ++r )
+                    setMax( m_s[r], c );
+
             // Compute address sequences for triangular matrices m_l, m_u
             auto initTriangularMatrix = [n](
                     std::vector<real_type>& m,
-- 
2.43.0


From f47889348e4aae6b088461830d673c1e6580ab3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:04 +0000
Subject: [PATCH 06/42] fix: LUFactorizer::setMatrixFast falls back to
 setMatrix when the matrix size changes

---
 include/ode_num_int/lu/LUFactorizer.h | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/include/ode_num_int/lu/LUFactorizer.h b/include/ode_num_int/lu/LUFactorizer.h
index d6b23ba..be3ea39 100644
--- a/include/ode_num_int/lu/LUFactorizer.h
+++ b/include/ode_num_int/lu/LUFactorizer.h
@@ -139,16 +139,23 @@ class LUFactorizer
             for( auto it=matrixBegin; it!=matrixEnd; ++it, ++fc )
                 **fc = it->second;
 #else // CTM_MATH_LU_USE_MX_FAST_CACHE
-            auto elementsSet = 0;
+            unsigned int n = m_p.size();
+            unsigned int nr = 0,   nc = 0;
             for( auto it=matrixBegin; it!=matrixEnd; ++it ) {
-                ++elementsSet;
                 auto r = it->first.first;
                 auto c = it->first.second;
-                if (!setLU(r, c, it->second)) {
+                if (r >= n || c >= n || !setLU(r, c, it->second)) {
                     // Fall back to setMatrix because the sparsity layout has changed
                     setMatrix(matrixBegin, matrixEnd);
                     return;
                     }
+                nr = std::max( nr, r + 1 );
+                nc = std::max( nc, c + 1 );
+                }
+            if (nr != n || nc != n) {
+                // Fall back to setMatrix because the matrix size has changed
+                setMatrix(matrixBegin, matrixEnd);
+                return;
                 }
 #endif // CTM_MATH_LU_USE_MX_FAST_CACHE
             m_factorized = false;
-- 
2.43.0


From d53af4022dd1493369b7ca9181fd83b44dd04abf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:15 +0000
Subject: [PATCH 07/42] fix: explicit RK solvers and extrapolator initialize
 the step size before passing it to pre-step observers

---
 include/ode_num_int/ode/OdeSolverExplicitEmbeddedRK.h | 4 ++--
 include/ode_num_int/ode/OdeSolverExplicitRK.h         | 4 ++--
 include/ode_num_int/ode/OdeSolverExtrapolator.h       | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/ode_num_int/ode/OdeSolverExplicitEmbeddedRK.h b/include/ode_num_int/ode/OdeSolverExplicitEmbeddedRK.h
index 6c71ee0..0c75661 100644
--- a/include/ode_num_int/ode/OdeSolverExplicitEmbeddedRK.h
+++ b/include/ode_num_int/ode/OdeSolverExplicitEmbeddedRK.h
@@ -74,13 +74,13 @@ class OdeSolverExplicitEmbeddedRK :
         void doStep()
             {
             while( true ) {
-                this->odeSolverPreObservers( m_h, this );
-
                 OpaqueTickCounter timer;    // deBUG
 
                 timer.Start();
                 initStep();
 
+                this->odeSolverPreObservers( m_h, this );
+
                 auto rhs = this->odeRhs();
 
                 this->tstat0.add( timer.Lap() );
diff --git a/include/ode_num_int/ode/OdeSolverExplicitRK.h b/include/ode_num_int/ode/OdeSolverExplicitRK.h
index c98e824..eb81162 100644
--- a/include/ode_num_int/ode/OdeSolverExplicitRK.h
+++ b/include/ode_num_int/ode/OdeSolverExplicitRK.h
@@ -49,13 +49,13 @@ class OdeSolverExplicitRK :
 
         void doStep()
             {
-            this->odeSolverPreObservers( m_h, this );
-
             OpaqueTickCounter timer;    // deBUG
 
             timer.Start();
             initStep();
 
+            this->odeSolverPreObservers( m_h, this );
+
             auto rhs = this->odeRhs();
 
             this->tstat0.add( timer.Lap() );
diff --git a/include/ode_num_int/ode/OdeSolverExtrapolator.h b/include/ode_num_int/ode/OdeSolverExtrapolator.h
index ef3c540..aa9f0dc 100644
--- a/include/ode_num_int/ode/OdeSolverExtrapolator.h
+++ b/include/ode_num_int/ode/OdeSolverExtrapolator.h
@@ -89,13 +89,13 @@ class OdeSolverExtrapolator :
         void doStep()
             {
             while( true ) {
-                this->odeSolverPreObservers( m_h, this );
-
                 OpaqueTickCounter timer;    // deBUG
 
                 timer.Start();
                 initStep();
 
+                this->odeSolverPreObservers( m_h, this );
+
                 auto rhs = this->odeRhs().get();
 
                 this->tstat0.add( timer.Lap() );
-- 
2.43.0


From af3f2a6e457d11f6430da8cde50faffb83496ccc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:47:59 +0000
Subject: [PATCH 08/42] fix: extrapolator reports the size of the step made to
 post-step observers, not of the next step

---
 include/ode_num_int/ode/OdeSolverExtrapolator.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ode_num_int/ode/OdeSolverExtrapolator.h b/include/ode_num_int/ode/OdeSolverExtrapolator.h
index aa9f0dc..b2e63ad 100644
--- a/include/ode_num_int/ode/OdeSolverExtrapolator.h
+++ b/include/ode_num_int/ode/OdeSolverExtrapolator.h
@@ -194,7 +194,7 @@ class OdeSolverExtrapolator :
 
                 // Invoke observers
                 this->odeSolverPostObservers( OdeSolverPostObserverArg<VD>(
-                    m_h, scResult.acceptStep, scResult.changeStepSize, stepTruncated, errorNorm, izfTrunc, transitionType, this ) );
+                    hcur, scResult.acceptStep, scResult.changeStepSize, stepTruncated, errorNorm, izfTrunc, transitionType, this ) );
 
                 this->tstat4.add( timer.Lap() );
 
-- 
2.43.0


From 81d1f2b92827b9ed84173d5406346b9e37d38a9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:47:59 +0000
Subject: [PATCH 09/42] fix: extrapolator rejects too few stages and missing
 reference solver instead of accessing memory out of bounds

---
 include/ode_num_int/ode/OdeSolverExtrapolator.h | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/include/ode_num_int/ode/OdeSolverExtrapolator.h b/include/ode_num_int/ode/OdeSolverExtrapolator.h
index b2e63ad..5d111c8 100644
--- a/include/ode_num_int/ode/OdeSolverExtrapolator.h
+++ b/include/ode_num_int/ode/OdeSolverExtrapolator.h
@@ -81,7 +81,7 @@ class OdeSolverExtrapolator :
             {
             m_initialTime = initialTime;
             m_initialState = initialState;
-            if( !soft )
+            if( !soft && m_referenceSolver )
                 m_referenceSolver->setInitialState( initialTime, initialState, false );
             cleanupStep();
             }
@@ -256,8 +256,17 @@ class OdeSolverExtrapolator :
 
         void initStep()
             {
-            if( !m_T.empty() )
+            if( m_max_stages < ( m_disable_error_check ? 1u : 2u ) )
+                throw cxx::exception( "The number of extrapolation stages is too small" );
+
+            if( !m_T.empty() ) {
+                // The number of stages could have been increased since the last step
+                if( m_T.size() < m_max_stages ) {
+                    m_T.resize( m_max_stages );
+                    m_n.resize( m_max_stages );
+                    }
                 return;
+                }
 
             if( !m_referenceSolver )
                 throw cxx::exception( "Reference solver is not set" );
-- 
2.43.0


From 35af5118055bce602d7af8571538f46af816c812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:14 +0000
Subject: [PATCH 10/42] fix: OptionalParameters stores doubles with enough
 digits to restore them exactly

---
 include/ode_num_int/infra/OptionalParameters.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ode_num_int/infra/OptionalParameters.h b/include/ode_num_int/infra/OptionalParameters.h
index bbf3438..432216c 100644
--- a/include/ode_num_int/infra/OptionalParameters.h
+++ b/include/ode_num_int/infra/OptionalParameters.h
@@ -84,7 +84,7 @@ class OptionalParameters
                 Value( double x )
                     {
                     std::ostringstream s;
-                    s << std::setprecision(16) << x;
+                    s << std::setprecision(17) << x;
                     m_value = s.str();
                     }
 
-- 
2.43.0


From ad8d914e68819b4e9a9a7d6d235f36377dfea68a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:14 +0000
Subject: [PATCH 11/42] fix: step size controller reduces the step by the
 maximum factor if the error norm is NaN, instead of setting NaN step size

---
 include/ode_num_int/ode/OdeStepSizeSimpleController.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ode_num_int/ode/OdeStepSizeSimpleController.h b/include/ode_num_int/ode/OdeStepSizeSimpleController.h
index bf30ee9..3c732bc 100644
--- a/include/ode_num_int/ode/OdeStepSizeSimpleController.h
+++ b/include/ode_num_int/ode/OdeStepSizeSimpleController.h
@@ -53,7 +53,7 @@ class OdeStepSizeSimpleController :
             else if( p > 1 - GEOM_EPS )
                 return Result( currentStepSize, true, false );
             else {
-                if( m_decMaxFactor > 0   &&   pd < m_decMaxFactor )
+                if( m_decMaxFactor > 0   &&   !(pd >= m_decMaxFactor) )    // Note: pd is NaN if errorNorm is NaN
                     pd = m_decMaxFactor;
                 return Result( currentStepSize*pd, false, true );
                 }
-- 
2.43.0


From b376b2ccdb876d75175b655f489dd05fca525587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:02:13 +0000
Subject: [PATCH 12/42] fix: adaptive solvers stop if the step size becomes NaN
 instead of looping forever

---
 include/ode_num_int/ode/OdeSolverExplicitEmbeddedRK.h | 2 +-
 include/ode_num_int/ode/OdeSolverExtrapolator.h       | 2 +-
 include/ode_num_int/ode/OdeSolverRosenbrock_SW2_4.h   | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/ode_num_int/ode/OdeSolverExplicitEmbeddedRK.h b/include/ode_num_int/ode/OdeSolverExplicitEmbeddedRK.h
index 0c75661..dbb01d6 100644
--- a/include/ode_num_int/ode/OdeSolverExplicitEmbeddedRK.h
+++ b/include/ode_num_int/ode/OdeSolverExplicitEmbeddedRK.h
@@ -128,7 +128,7 @@ class OdeSolverExplicitEmbeddedRK :
                 // Apply new step size, if it has changed
                 if( scResult.changeStepSize ) {
                     m_h = scResult.newStepSize;
-                    if( m_h <= this->stepSizeMinThreshold() )
+                    if( !( m_h > this->stepSizeMinThreshold() ) )    // Note: true if m_h is NaN
                         throw cxx::exception( "Step size has decreased to the minimum or below" );
                     }
 
diff --git a/include/ode_num_int/ode/OdeSolverExtrapolator.h b/include/ode_num_int/ode/OdeSolverExtrapolator.h
index 5d111c8..0482719 100644
--- a/include/ode_num_int/ode/OdeSolverExtrapolator.h
+++ b/include/ode_num_int/ode/OdeSolverExtrapolator.h
@@ -186,7 +186,7 @@ class OdeSolverExtrapolator :
                 // Apply new step size, if it has changed
                 if( scResult.changeStepSize ) {
                     m_h = scResult.newStepSize;
-                    if( m_h <= this->stepSizeMinThreshold() )
+                    if( !( m_h > this->stepSizeMinThreshold() ) )    // Note: true if m_h is NaN
                         throw cxx::exception( "Step size has decreased to the minimum or below" );
                     }
 
diff --git a/include/ode_num_int/ode/OdeSolverRosenbrock_SW2_4.h b/include/ode_num_int/ode/OdeSolverRosenbrock_SW2_4.h
index 7a5c16a..7664fed 100644
--- a/include/ode_num_int/ode/OdeSolverRosenbrock_SW2_4.h
+++ b/include/ode_num_int/ode/OdeSolverRosenbrock_SW2_4.h
@@ -170,7 +170,7 @@ class OdeSolverRosenbrock_SW2_4 :
                     }
                 if( scResult.changeStepSize ) {
                     m_h = scResult.newStepSize;
-                    if( m_h <= this->stepSizeMinThreshold() )
+                    if( !( m_h > this->stepSizeMinThreshold() ) )    // Note: true if m_h is NaN
                         throw cxx::exception( "Step size has decreased to the minimum or below" );
                     }
 
-- 
2.43.0


From 5f9463203c1141c5c8f17a0dcd2522f428cec061 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:39:16 +0000
Subject: [PATCH 13/42] fix: event controller accepts zero functions vanishing
 exactly at the end of the step, and does not look for events outside the step

---
 include/ode_num_int/ode/LinearOdeEventController.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/ode_num_int/ode/LinearOdeEventController.h b/include/ode_num_int/ode/LinearOdeEventController.h
index 9405d31..3b91e29 100644
--- a/include/ode_num_int/ode/LinearOdeEventController.h
+++ b/include/ode_num_int/ode/LinearOdeEventController.h
@@ -75,9 +75,10 @@ class LinearOdeEventController :
                 auto i = m_zfi[ix];
                 auto zf1 = m_zf1[i];
                 auto zf2 = m_zf2[i];
-                real_type t = zf1 / ( zf1 - zf2 );
-                ASSERT (t >= 0);
-                if( tmin > t ) {
+                // Note: zf1 might be beyond zero due to roundoff after an event; then, the event occurs at the beginning of the step
+                real_type t = s( zf1 ) == s( zf2 ) ?   0 :   zf1 / ( zf1 - zf2 );
+                ASSERT( t >= 0   &&   t <= 1 );
+                if( itmin == ~0u   ||   tmin > t ) {
                     tmin = t;
                     itmin = i;
                     }
-- 
2.43.0


From 831f9c65b777123c577aa3d9cce7a8b284d0a98a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:39:16 +0000
Subject: [PATCH 14/42] fix: event controller reports the transition direction
 if the zero function vanishes exactly at the end of the step

---
 include/ode_num_int/ode/LinearOdeEventController.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/ode_num_int/ode/LinearOdeEventController.h b/include/ode_num_int/ode/LinearOdeEventController.h
index 3b91e29..34791a5 100644
--- a/include/ode_num_int/ode/LinearOdeEventController.h
+++ b/include/ode_num_int/ode/LinearOdeEventController.h
@@ -94,6 +94,9 @@ class LinearOdeEventController :
             // Switch state
             std::fill( m_transitions.begin(), m_transitions.end(), 0 );
             auto currentTransitionType = s( m_zf2[itmin] );
+            if( currentTransitionType == 0 )
+                // The zero function vanishes exactly at the end of the step
+                currentTransitionType = -m_state[itmin];
             m_transitions[itmin] = currentTransitionType;
             // m_state[itmin] = ( m_zfflags[itmin] & OdeRhs<VD>::BothDirections ) == OdeRhs<VD>::BothDirections ?   m_transitions[itmin] :   0;
             rhs->switchPhaseState( m_transitions.data(), t2, x2 );
-- 
2.43.0


From d435309f46af64b5f3c830e0d65f5ee3edd9af0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:39:54 +0000
Subject: [PATCH 15/42] fix: event controller ignores one-directional zero
 functions that are already beyond zero at the start instead of reporting a
 false event

---
 include/ode_num_int/ode/LinearOdeEventController.h | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/ode_num_int/ode/LinearOdeEventController.h b/include/ode_num_int/ode/LinearOdeEventController.h
index 34791a5..7f1129e 100644
--- a/include/ode_num_int/ode/LinearOdeEventController.h
+++ b/include/ode_num_int/ode/LinearOdeEventController.h
@@ -37,7 +37,7 @@ class LinearOdeEventController :
                     auto rhs = this->odeRhs();
                     rhs->zeroFunctions( m_zf1, t1, x1 );
                     for (typename V::size_type i=0; i<m_zf1.size(); ++i)
-                        m_state[i] = s(m_zf1[i], m_zfflags[i]);
+                        m_state[i] = s(m_zf1[i]);
                     }
                 }
             }
@@ -65,6 +65,8 @@ class LinearOdeEventController :
             if( nx == 0 ) {
                 // No event indicators changed sign
                 m_zf1.swap( m_zf2 );
+                for( decltype(nz) i=0; i<nz; ++i )
+                    m_state[i] = s( m_zf1[i] );
                 return false;
                 }
 
@@ -118,13 +120,16 @@ class LinearOdeEventController :
                     zf = zf*( 1. - tmin ) + m_zf2[i]*tmin;
                 auto& st = m_state[i];
                 if (recompute)
-                    st = s(zf, zff);
+                    st = i == itmin ?   s(zf, zff) :   s(zf);
                 else if (i == itmin) {
                     if ((zff & OdeRhs<VD>::BothDirections) == OdeRhs<VD>::BothDirections)
                         st = currentTransitionType;
                     else
                         st = s(zf, zff);
                     }
+                else if (st != 0   &&   s(st, zff) == 0)
+                    // The zero function was beyond zero, so its event could not occur
+                    st = s(zf);
                 }
 
             return true;
-- 
2.43.0


From 35e5a728cd49706522972ec6f605d2380d922069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:39:54 +0000
Subject: [PATCH 16/42] fix: Rosenbrock solvers compute all columns of the
 Jacobian when there are second order variables

---
 include/ode_num_int/ode/OdeSolverRosenbrock_W_base.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ode_num_int/ode/OdeSolverRosenbrock_W_base.h b/include/ode_num_int/ode/OdeSolverRosenbrock_W_base.h
index f656cc7..5afe60b 100644
--- a/include/ode_num_int/ode/OdeSolverRosenbrock_W_base.h
+++ b/include/ode_num_int/ode/OdeSolverRosenbrock_W_base.h
@@ -115,7 +115,7 @@ class OdeSolverRosenbrock_W_base :
                 SparseMatrix Jm( m_n2+m_n1, m_n2+m_n1 );
                 V x = initialState;
                 V f( m_n );
-                for( unsigned int i=istart; i<isize; ++i ) {
+                for( unsigned int i=istart; i<istart+isize; ++i ) {
                     x[i] += dx;
                     rhs->rhs( f, initialTime, x );
                     x[i] = initialState[i];
-- 
2.43.0


From d18afa6fbdd422737bbbab5a4c3e68f0e185460d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:39:54 +0000
Subject: [PATCH 17/42] fix: Rosenbrock SW2(4) updates the W matrix when a step
 is repeated with another step size

---
 include/ode_num_int/ode/OdeSolverRosenbrock_SW2_4.h | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/include/ode_num_int/ode/OdeSolverRosenbrock_SW2_4.h b/include/ode_num_int/ode/OdeSolverRosenbrock_SW2_4.h
index 7664fed..ade8ea4 100644
--- a/include/ode_num_int/ode/OdeSolverRosenbrock_SW2_4.h
+++ b/include/ode_num_int/ode/OdeSolverRosenbrock_SW2_4.h
@@ -66,18 +66,13 @@ class OdeSolverRosenbrock_SW2_4 :
 
         void doStep()
             {
-            bool needInitStep = true;
-
             while( true ) {
                 this->odeSolverPreObservers( m_h, this );
 
                 OpaqueTickCounter timer;    // deBUG
 
                 timer.Start();
-                if( needInitStep ) {
-                    needInitStep = false;
-                    initStep();
-                    }
+                initStep();
 
                 auto rhs = this->odeRhs();
 
-- 
2.43.0


From 8527178d101756bd5292de97fdc2df1dd425b81d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:39:54 +0000
Subject: [PATCH 18/42] fix: Rosenbrock solvers start with the initial step
 size, also after setInitialState()

---
 include/ode_num_int/ode/OdeSolverRosenbrock_SW2_4.h | 11 +++++++----
 include/ode_num_int/ode/OdeSolverRosenbrock_W1.h    |  2 +-
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/include/ode_num_int/ode/OdeSolverRosenbrock_SW2_4.h b/include/ode_num_int/ode/OdeSolverRosenbrock_SW2_4.h
index ade8ea4..2e82a89 100644
--- a/include/ode_num_int/ode/OdeSolverRosenbrock_SW2_4.h
+++ b/include/ode_num_int/ode/OdeSolverRosenbrock_SW2_4.h
@@ -31,7 +31,7 @@ class OdeSolverRosenbrock_SW2_4 :
             m_d( 1 ),
             m_disable_error_check( false ),
             m_initialTime( 0 ),
-            m_h( 0 )
+            m_h( this->initialStepSize() )
             {}
 
         void setInitialStepSize( real_type initialStepSize )
@@ -57,9 +57,11 @@ class OdeSolverRosenbrock_SW2_4 :
             m_initialTime = initialTime;
             m_initialState = initialState;
 
-            if( soft )
-                // Compute ODE RHS at the beginning of the step
-                this->odeRhs()->rhs( m_initialOdeRhs, m_initialTime, m_initialState );
+            if( soft ) {
+                // Compute ODE RHS at the beginning of the step, unless the first step is yet to be initialized
+                if( !m_k1.empty() )
+                    this->odeRhs()->rhs( m_initialOdeRhs, m_initialTime, m_initialState );
+                }
             else
                 cleanupStep();
             }
@@ -249,6 +251,7 @@ class OdeSolverRosenbrock_SW2_4 :
 
         void cleanupStep() {
             m_k1.resize( 0 );
+            m_h = this->initialStepSize();
             }
 
         void linSolve( V& x ) {
diff --git a/include/ode_num_int/ode/OdeSolverRosenbrock_W1.h b/include/ode_num_int/ode/OdeSolverRosenbrock_W1.h
index c80a6f0..130ae39 100644
--- a/include/ode_num_int/ode/OdeSolverRosenbrock_W1.h
+++ b/include/ode_num_int/ode/OdeSolverRosenbrock_W1.h
@@ -24,7 +24,7 @@ class OdeSolverRosenbrock_W1 :
             OdeSolverEventController<VD>( *this, "linear" ),
             m_d( 1 ),
             m_initialTime( 0 ),
-            m_h( 0 )
+            m_h( this->initialStepSize() )
             {}
 
         void setInitialStepSize( real_type initialStepSize )
-- 
2.43.0


From db3f68852e3efe74f76dca991e7a2cbafe323c5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:39:54 +0000
Subject: [PATCH 19/42] fix: Gragg, Rosenbrock and implicit Euler solvers reset
 the event controller in setInitialState()

---
 include/ode_num_int/ode/OdeSolverGragg.h            | 2 ++
 include/ode_num_int/ode/OdeSolverImplicitEuler.h    | 2 ++
 include/ode_num_int/ode/OdeSolverRosenbrock_SW2_4.h | 2 ++
 include/ode_num_int/ode/OdeSolverRosenbrock_W1.h    | 2 ++
 4 files changed, 8 insertions(+)

diff --git a/include/ode_num_int/ode/OdeSolverGragg.h b/include/ode_num_int/ode/OdeSolverGragg.h
index 3607889..ee1b4ff 100644
--- a/include/ode_num_int/ode/OdeSolverGragg.h
+++ b/include/ode_num_int/ode/OdeSolverGragg.h
@@ -59,6 +59,8 @@ class OdeSolverGragg :
             m_initialTime = initialTime;
             m_initialU = initialState;
             m_stepsRunning = false;
+            if( auto ec = this->eventController() )
+                ec->reset();
             }
 
         void doStep()
diff --git a/include/ode_num_int/ode/OdeSolverImplicitEuler.h b/include/ode_num_int/ode/OdeSolverImplicitEuler.h
index bfb01c5..767160b 100644
--- a/include/ode_num_int/ode/OdeSolverImplicitEuler.h
+++ b/include/ode_num_int/ode/OdeSolverImplicitEuler.h
@@ -73,6 +73,8 @@ class OdeSolverImplicitEuler :
             m_mapping4Newton->setInitialState( initialTime, initialState );
             if( !soft )
                 m_hardResetRequested = true;
+            if( auto ec = this->eventController() )
+                ec->reset();
             }
 
         void doStep()
diff --git a/include/ode_num_int/ode/OdeSolverRosenbrock_SW2_4.h b/include/ode_num_int/ode/OdeSolverRosenbrock_SW2_4.h
index 2e82a89..c21b37c 100644
--- a/include/ode_num_int/ode/OdeSolverRosenbrock_SW2_4.h
+++ b/include/ode_num_int/ode/OdeSolverRosenbrock_SW2_4.h
@@ -56,6 +56,8 @@ class OdeSolverRosenbrock_SW2_4 :
             {
             m_initialTime = initialTime;
             m_initialState = initialState;
+            if( auto ec = this->eventController() )
+                ec->reset();
 
             if( soft ) {
                 // Compute ODE RHS at the beginning of the step, unless the first step is yet to be initialized
diff --git a/include/ode_num_int/ode/OdeSolverRosenbrock_W1.h b/include/ode_num_int/ode/OdeSolverRosenbrock_W1.h
index 130ae39..8dcc1ab 100644
--- a/include/ode_num_int/ode/OdeSolverRosenbrock_W1.h
+++ b/include/ode_num_int/ode/OdeSolverRosenbrock_W1.h
@@ -49,6 +49,8 @@ class OdeSolverRosenbrock_W1 :
             {
             m_initialTime = initialTime;
             m_initialState = initialState;
+            if( auto ec = this->eventController() )
+                ec->reset();
 
             if( !soft )
                 cleanupStep();
-- 
2.43.0


From 470cc019c81488879539bc1613a5ec181c2c550d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:40:10 +0000
Subject: [PATCH 20/42] fix: reference solver of extrapolator and predictor of
 implicit Euler do not process events

---
 include/ode_num_int/ode/OdeSolverExtrapolator.h  | 6 +++++-
 include/ode_num_int/ode/OdeSolverImplicitEuler.h | 3 +++
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/ode_num_int/ode/OdeSolverExtrapolator.h b/include/ode_num_int/ode/OdeSolverExtrapolator.h
index 0482719..676e01a 100644
--- a/include/ode_num_int/ode/OdeSolverExtrapolator.h
+++ b/include/ode_num_int/ode/OdeSolverExtrapolator.h
@@ -304,8 +304,12 @@ class OdeSolverExtrapolator :
 
         void syncOdeRhs()
             {
-            if( m_referenceSolver )
+            if( m_referenceSolver ) {
+                // Events are to be processed once per extrapolated step, rather than by the reference solver
+                if( auto ec = dynamic_cast< OdeSolverEventController<VD>* >( m_referenceSolver.get() ) )
+                    ec->setEventController( nullptr );
                 m_referenceSolver->setOdeRhs( this->odeRhs() );
+                }
             }
 
         std::function<void()> getSyncOdeRhs() {
diff --git a/include/ode_num_int/ode/OdeSolverImplicitEuler.h b/include/ode_num_int/ode/OdeSolverImplicitEuler.h
index 767160b..fbb4d2e 100644
--- a/include/ode_num_int/ode/OdeSolverImplicitEuler.h
+++ b/include/ode_num_int/ode/OdeSolverImplicitEuler.h
@@ -92,6 +92,9 @@ class OdeSolverImplicitEuler :
             m_mapping4Newton->setTimeStep( h );
 
             if( m_predictor ) {
+                // Events are not to be processed by the predictor
+                if( auto ec = dynamic_cast< OdeSolverEventController<VD>* >( m_predictor.get() ) )
+                    ec->setEventController( nullptr );
                 m_predictor->setOdeRhs( this->odeRhs() );
                 m_predictor->setInitialStepSize( h/m_predictorSteps );
                 m_predictor->setInitialState( initialTime, initialState );
-- 
2.43.0


From 283588e2b1fd868cdb300b45426c14304128ef66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:49:55 +0000
Subject: [PATCH 21/42] fix: event controller does not report events of a zero
 function resting at zero after an event

---
 include/ode_num_int/ode/LinearOdeEventController.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/ode_num_int/ode/LinearOdeEventController.h b/include/ode_num_int/ode/LinearOdeEventController.h
index 7f1129e..71104d7 100644
--- a/include/ode_num_int/ode/LinearOdeEventController.h
+++ b/include/ode_num_int/ode/LinearOdeEventController.h
@@ -116,6 +116,8 @@ class LinearOdeEventController :
                 bool recompute = (zff & OdeRhs<VD>::RecomputeAfterSwitch) != 0;
                 if (recompute)
                     zf = m_zfbuf[i];
+                else if (i == itmin)
+                    zf = 0;
                 else
                     zf = zf*( 1. - tmin ) + m_zf2[i]*tmin;
                 auto& st = m_state[i];
@@ -202,7 +204,8 @@ class LinearOdeEventController :
                 case OdeRhs<VD>::PlusMinus:
                     return ( st == 1   &&   x2 <= 0 )   ||   ( st == 0   &&   x2 < 0 );
                 case OdeRhs<VD>::BothDirections:
-                    return s(x2) != st;
+                    // Note: a zero function resting at zero after an event does not cause another event
+                    return s(x2) != st   &&   !( m_zf1[i] == 0   &&   x2 == 0 );
                 default:
                     ASSERT( false );    // Reaching here means invalid zero function flags
                     return false;
-- 
2.43.0


From ab14b63c4100d8ecf72144273c455e61f9735695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:07:20 +0000
Subject: [PATCH 22/42] fix: event controller tracks zero functions that leave
 zero in a step truncated by another event

---
 include/ode_num_int/ode/LinearOdeEventController.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/ode_num_int/ode/LinearOdeEventController.h b/include/ode_num_int/ode/LinearOdeEventController.h
index 71104d7..49a4751 100644
--- a/include/ode_num_int/ode/LinearOdeEventController.h
+++ b/include/ode_num_int/ode/LinearOdeEventController.h
@@ -129,8 +129,8 @@ class LinearOdeEventController :
                     else
                         st = s(zf, zff);
                     }
-                else if (st != 0   &&   s(st, zff) == 0)
-                    // The zero function was beyond zero, so its event could not occur
+                else if (s(st, zff) == 0)
+                    // The zero function was at or beyond zero, so its event could not occur
                     st = s(zf);
                 }
 
-- 
2.43.0


From 68218db5476c0e88afc6fcbb91d001ddff56a36c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:20 +0000
Subject: [PATCH 23/42] fix: extrapolator reports the order it reaches with
 reference solvers of higher order

---
 include/ode_num_int/ode/OdeSolverExtrapolator.h | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/include/ode_num_int/ode/OdeSolverExtrapolator.h b/include/ode_num_int/ode/OdeSolverExtrapolator.h
index 676e01a..fe21f4a 100644
--- a/include/ode_num_int/ode/OdeSolverExtrapolator.h
+++ b/include/ode_num_int/ode/OdeSolverExtrapolator.h
@@ -39,16 +39,14 @@ class OdeSolverExtrapolator :
 
         int order() const
             {
-            if( auto rs = referenceSolver() ) {
-                auto rsOrder = rs->order();
-                return rsOrder + ( m_max_stages - 1 )*( m_symmetric? 2: 1 );
-                }
+            if( referenceSolver() )
+                return orderForStages( m_max_stages );
             else
                 return -1;  // TODO
             }
 
         int lowOrder() const {
-            return order() - ( m_symmetric? 2: 1 );
+            return referenceSolver() ?   orderForStages( m_max_stages - 1 ) :   -1;
             }
 
         unsigned int maxStages() const {
@@ -254,6 +252,12 @@ class OdeSolverExtrapolator :
         V m_buf;
         std::vector<unsigned int> m_n;
 
+        int orderForStages( int stages ) const {
+            // Each stage eliminates the next power of the step size (of its square, for a symmetric reference solver),
+            // starting from the first one; it improves the order if the reference solver has that power in its error.
+            return std::max( referenceSolver()->order(), stages*( m_symmetric? 2: 1 ) );
+            }
+
         void initStep()
             {
             if( m_max_stages < ( m_disable_error_check ? 1u : 2u ) )
-- 
2.43.0


From 326bc345302da16f9ec71d61c97970a38e302ed6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:55 +0000
Subject: [PATCH 24/42] fix: Newton solver reports divergence as divergence
 rather than as an exceeded iteration limit

---
 include/ode_num_int/alg/NewtonSolver.h | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/include/ode_num_int/alg/NewtonSolver.h b/include/ode_num_int/alg/NewtonSolver.h
index c0aff89..ff8fa32 100644
--- a/include/ode_num_int/alg/NewtonSolver.h
+++ b/include/ode_num_int/alg/NewtonSolver.h
@@ -53,7 +53,9 @@ class NewtonSolver :
             auto hardResetTried = false;
             auto x0 = currentSolution();
             auto iterationNumberBias = 0u;
+            auto failureStatus = BaseClass::IterationCountLimitExceeded;
             while( true ) {
+                failureStatus = BaseClass::IterationCountLimitExceeded;
                 auto breakLoop = false;
                 auto iterationNumber=0u;
                 for( ; !breakLoop && iterationNumber<m_iterationCountLimit; ++iterationNumber ) {
@@ -72,12 +74,9 @@ class NewtonSolver :
                         case ErrorEstimator<VD>::Diverged:
                             if( maybeAdjustRegularizationParameter() )
                                 break;
-                            ddir->reportSuccess( false );
-                            if( !hardResetTried ) {
-                                breakLoop = true;
-                                break;
-                                }
-                            return BaseClass::Diverged;
+                            failureStatus = BaseClass::Diverged;
+                            breakLoop = true;
+                            break;
                         default:
                             ASSERT( false );
                         }
@@ -93,7 +92,7 @@ class NewtonSolver :
                     break;
                 }
             ddir->reportSuccess( false );
-            return BaseClass::IterationCountLimitExceeded;
+            return failureStatus;
             }
 
         const V& currentSolution() const {
-- 
2.43.0


From c38d916df3257a67c0ed1d399e84b63769f41d68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:32 +0000
Subject: [PATCH 25/42] fix: a hard reset of the default Jacobian provider
 discards its Jacobian

---
 include/ode_num_int/alg/DefaultJacobianProvider.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/ode_num_int/alg/DefaultJacobianProvider.h b/include/ode_num_int/alg/DefaultJacobianProvider.h
index f48e696..53f9b09 100644
--- a/include/ode_num_int/alg/DefaultJacobianProvider.h
+++ b/include/ode_num_int/alg/DefaultJacobianProvider.h
@@ -19,6 +19,10 @@ class DefaultJacobianProvider :
         typedef typename VD::value_type real_type;
         typedef sparse::SparseMatrixTemplate< sparse::SparseMatrixFastData<real_type> > FastSparseMatrix;
 
+        void hardReset() {
+            m_J = FastSparseMatrix();
+            }
+
         void computeJacobian( const V& x0 )
             {
             if( auto jt = this->jacobianTrimmer() )
-- 
2.43.0


From f6f7c9bc7fa7403cea166335851fcd063976678a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:32 +0000
Subject: [PATCH 26/42] fix: sparse Jacobian provider recomputes the layout
 after its trimmer has changed

---
 include/ode_num_int/alg/SparseJacobianProvider.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/ode_num_int/alg/SparseJacobianProvider.h b/include/ode_num_int/alg/SparseJacobianProvider.h
index 5d67cf1..b5d421f 100644
--- a/include/ode_num_int/alg/SparseJacobianProvider.h
+++ b/include/ode_num_int/alg/SparseJacobianProvider.h
@@ -22,7 +22,10 @@ class SparseJacobianProvider :
 
         SparseJacobianProvider() :
             m_Jcalc( &m_J )
-            {}
+            {
+            // A trimmed Jacobian does not have the layout known to m_Jcalc
+            this->onJacobianTrimmerChanged( [this]() { hardReset(); } );
+            }
 
         SparseJacobianProvider( const SparseJacobianProvider<VD>& ) = delete;
         SparseJacobianProvider<VD>& operator=( const SparseJacobianProvider<VD>& ) = delete;
-- 
2.43.0


From 3f1bd2a6a765c99d9711d080ff0cc9c2acdbbfda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:32 +0000
Subject: [PATCH 27/42] fix: fast sparse matrices can be constructed from other
 sparse matrices

---
 include/ode_num_int/la/SparseMatrixTemplate.h | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/include/ode_num_int/la/SparseMatrixTemplate.h b/include/ode_num_int/la/SparseMatrixTemplate.h
index 9329cd4..923523c 100644
--- a/include/ode_num_int/la/SparseMatrixTemplate.h
+++ b/include/ode_num_int/la/SparseMatrixTemplate.h
@@ -851,10 +851,9 @@ class SparseMatrixTemplate : public D
             D( data ), m_size( size ) {}
 
         template< class ThatD >
-        SparseMatrixTemplate( const SparseMatrixTemplate< ThatD >& that ) : m_size( that.size() )
+        SparseMatrixTemplate( const SparseMatrixTemplate< ThatD >& that )
             {
-            for( auto v : that )
-                this->at( v.first ) = v.second;
+            doAssign( that );
             }
 
         template< class ThatD >
-- 
2.43.0


From 714e897f1caaf236394148ed73c89d76f4feda2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:32 +0000
Subject: [PATCH 28/42] fix: Broyden update may fill entries the Jacobian does
 not have

---
 .../JacobianBroydenUpdateNewtonDescentDirection.h  | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/include/ode_num_int/alg/JacobianBroydenUpdateNewtonDescentDirection.h b/include/ode_num_int/alg/JacobianBroydenUpdateNewtonDescentDirection.h
index 19689cd..e476a02 100644
--- a/include/ode_num_int/alg/JacobianBroydenUpdateNewtonDescentDirection.h
+++ b/include/ode_num_int/alg/JacobianBroydenUpdateNewtonDescentDirection.h
@@ -28,8 +28,10 @@ class JacobianBroydenUpdateNewtonDescentDirection :
 
         void reset( bool hard )
             {
-            if( hard )
+            if( hard ) {
                 this->jacobianProvider()->hardReset();
+                m_J = FastSparseMatrix();
+                }
             m_havePrev = false;
             }
 
@@ -41,11 +43,12 @@ class JacobianBroydenUpdateNewtonDescentDirection :
             {
             auto jp = this->jacobianProvider();
             ASSERT( jp );
-            auto& J = jp->jacobian();
+            auto& J = m_J;
             auto recalcJacobian = J.empty();
             if( recalcJacobian ) {
                 this->jacobianRefreshObservers( true );
                 jp->computeJacobian( x0 );
+                J = jp->jacobian();
                 this->jacobianRefreshObservers( false );
                 }
             this->ddirPreObservers();
@@ -56,12 +59,15 @@ class JacobianBroydenUpdateNewtonDescentDirection :
                 left *= 1 / dx.euclideanNormSquare();
                 unsigned int n = x0.size();
                 ASSERT( J.size() == sparse::SparseMatrixCommonTypes::Index(n, n) );
+                // The update may introduce elements not present in J
+                sparse::SparseMatrix<real_type> Jupdated( J );
                 for( unsigned int i=0; i<n; ++i )
                     for( unsigned int j=0; j<n; ++j ) {
                         real_type x = left[i] * dx[j];
                         if( x != 0 )
-                            J.at( i, j ) += x;
+                            Jupdated.at( i, j ) += x;
                         }
+                J = Jupdated;
                 }
             m_xprev = x0;
             m_fprev = f0;
@@ -76,6 +82,8 @@ class JacobianBroydenUpdateNewtonDescentDirection :
             }
 
     private:
+        typedef sparse::SparseMatrixTemplate< sparse::SparseMatrixFastData< real_type > > FastSparseMatrix;
+        FastSparseMatrix m_J;
         V m_xprev;
         V m_fprev;
         bool m_havePrev;
-- 
2.43.0


From 730f6cc955d4fcad5b3a420eb85682b522db8dba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:20 +0000
Subject: [PATCH 29/42] fix: narrowed outputs leave out the disabled outputs,
 not the disabled inputs

---
 include/ode_num_int/alg/VectorNarrowingMapping.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ode_num_int/alg/VectorNarrowingMapping.h b/include/ode_num_int/alg/VectorNarrowingMapping.h
index 2f1e7f2..38bf1a4 100644
--- a/include/ode_num_int/alg/VectorNarrowingMapping.h
+++ b/include/ode_num_int/alg/VectorNarrowingMapping.h
@@ -114,7 +114,7 @@ class VectorNarrowingMapping :
             this->mapping()->map( *pdst, *px );
 
             if( !m_disabledOutputIndices.empty() )
-                reduce( dst, dsts, m_disabledInputIndices );
+                reduce( dst, dsts, m_disabledOutputIndices );
             }
 
         std::vector<unsigned int> inputIds() const {
-- 
2.43.0


From 05c52b2bb31c84073f32963ed8ea7b319e8f8fc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:27 +0000
Subject: [PATCH 30/42] fix: error statistics start at zero, and their
 deviation is that from the mean

---
 include/ode_num_int/util/ErrorStats.h | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/include/ode_num_int/util/ErrorStats.h b/include/ode_num_int/util/ErrorStats.h
index 02c9921..10269a8 100644
--- a/include/ode_num_int/util/ErrorStats.h
+++ b/include/ode_num_int/util/ErrorStats.h
@@ -14,7 +14,12 @@ class ErrorStats
     public:
         typedef X value_type;
 
-        ErrorStats() : m_sampleCount( 0 ) {}
+        ErrorStats() :
+            m_errorMax(),
+            m_errorSum(),
+            m_errorSquareSum(),
+            m_sampleCount( 0 )
+            {}
 
         ErrorStats( const ErrorStats& ) = default;
 
@@ -60,9 +65,11 @@ class ErrorStats
         X errorMeanSqareDev() const
             {
             ASSERT( m_sampleCount > 0 );
-            X result = ( math::sqr( m_errorSum ) + m_errorSquareSum );
+            X result = m_errorSquareSum;
             result *= 1. / m_sampleCount;
-            return std::sqrt( result );
+            X mean = errorMeanValue();
+            result -= math::sqr( mean );
+            return std::sqrt( std::fabs( result ) );    // Note: fabs is for the case of negative result due to roundoff
             }
 
         unsigned int sampleCount() const {
-- 
2.43.0


From 1a9de8f797576583949723f51e718cf54d5bd101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:27 +0000
Subject: [PATCH 31/42] fix: Richardson estimates continue from the time a
 truncated step reached

---
 include/ode_num_int/ode/util/RichardsonErrorCalculator.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/ode_num_int/ode/util/RichardsonErrorCalculator.h b/include/ode_num_int/ode/util/RichardsonErrorCalculator.h
index 500d3f2..af8ba33 100644
--- a/include/ode_num_int/ode/util/RichardsonErrorCalculator.h
+++ b/include/ode_num_int/ode/util/RichardsonErrorCalculator.h
@@ -60,6 +60,7 @@ class RichardsonErrorCalculator :
                 solver->doStep();
                 solver->doStep();
                 auto x1 = solver->initialState();
+                auto t1 = solver->initialTime();
 
                 solver->setInitialState( t, x, true );
                 solver->setInitialStepSize( h );
@@ -75,7 +76,7 @@ class RichardsonErrorCalculator :
                     }
 
                 x = x1;
-                t += h;
+                t = t1;     // Note: differs from t + h if a half step has been truncated
                 }
             while( t < tEnd );
             return result;
-- 
2.43.0


From 759aadc911f22026e32c4501154f19c25a7998cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:06:32 +0000
Subject: [PATCH 32/42] fix: unsigned parameters reject negative and too large
 numbers instead of wrapping around

---
 include/ode_num_int/infra/OptionalParameters.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/ode_num_int/infra/OptionalParameters.h b/include/ode_num_int/infra/OptionalParameters.h
index 432216c..28a7607 100644
--- a/include/ode_num_int/infra/OptionalParameters.h
+++ b/include/ode_num_int/infra/OptionalParameters.h
@@ -10,6 +10,7 @@
 #include <map>
 #include <sstream>
 #include <iomanip>
+#include <limits>
 #include <tuple>
 #include <type_traits>
 
@@ -166,7 +167,10 @@ class OptionalParameters
                     {
                     if( !lang::IsIntegerNumber( m_value.c_str() ) )
                         throw cxx::exception( std::string("Not an integer number: '") + m_value + "'");
-                    dst = static_cast<unsigned int>( std::stoul( m_value ) );
+                    auto x = std::stoll( m_value );
+                    if( x < 0   ||   x > static_cast<long long>( std::numeric_limits<unsigned int>::max() ) )
+                        throw cxx::exception( std::string("Not an unsigned integer number: '") + m_value + "'");
+                    dst = static_cast<unsigned int>( x );
                     }
 
                 void toType( bool& dst ) const
-- 
2.43.0


From 78a780ffeb2c13f53a070359decc5a6e675ac7d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:06:32 +0000
Subject: [PATCH 33/42] fix: parameter paths with empty items are refused
 instead of being truncated

---
 include/ode_num_int/infra/OptionalParameters.h | 2 --
 1 file changed, 2 deletions(-)

diff --git a/include/ode_num_int/infra/OptionalParameters.h b/include/ode_num_int/infra/OptionalParameters.h
index 28a7607..d0d695a 100644
--- a/include/ode_num_int/infra/OptionalParameters.h
+++ b/include/ode_num_int/infra/OptionalParameters.h
@@ -383,8 +383,6 @@ class OptionalParameters
                 auto nd = formattedPath.find_first_of( '.', n );
                 if( nd == std::string::npos )
                     nd = formattedPath.size();
-                if( nd == n )
-                    break;
                 result.push_back( formattedPath.substr( n, nd-n ) );
                 n = nd + 1;
                 }
-- 
2.43.0


From c08e4d8297e99aeb7690c421fc07fe843aaeeb56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:06:32 +0000
Subject: [PATCH 34/42] fix: component configuration forgets a value rejected
 by the component

---
 include/ode_num_int/infra/ComponentConfiguration.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/ode_num_int/infra/ComponentConfiguration.h b/include/ode_num_int/infra/ComponentConfiguration.h
index a210da4..297e7f8 100644
--- a/include/ode_num_int/infra/ComponentConfiguration.h
+++ b/include/ode_num_int/infra/ComponentConfiguration.h
@@ -110,9 +110,10 @@ class ComponentConfiguration
             {
             valuePriv( path ) = value;
 
-            // Always reload auto setting, in particular, to load nested parameters
-            parameterProvider()->setParameters( m_parameters );
+            // Always reload auto setting, in particular, to load nested parameters,
+            // or to forget the value if it is rejected
             m_parametersKnown = false;
+            parameterProvider()->setParameters( m_parameters );
             }
 
         template< class PathType >
-- 
2.43.0


From 92608a0d49180d618360f41f86507a0382fb3f0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:06:32 +0000
Subject: [PATCH 35/42] fix: specified initial state can be shrunk, and rejects
 negative sizes

---
 include/ode_num_int/ode/SpecifiedOdeInitState.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/ode_num_int/ode/SpecifiedOdeInitState.h b/include/ode_num_int/ode/SpecifiedOdeInitState.h
index e3fe7ca..0c8b34c 100644
--- a/include/ode_num_int/ode/SpecifiedOdeInitState.h
+++ b/include/ode_num_int/ode/SpecifiedOdeInitState.h
@@ -55,10 +55,13 @@ class SpecifiedOdeInitState :
         V m_initialState;
 
         void resize( int n ) {
+            if( n < 0 )
+                throw cxx::exception( std::string("Invalid initial state size: ") + cxx::FormatInt(n) );
             int n0 = m_initialState.size();
             if( n != n0 ) {
                 m_initialState.resize( n );
-                std::fill( m_initialState.begin() + n0, m_initialState.end(), real_type(0) );
+                if( n > n0 )
+                    std::fill( m_initialState.begin() + n0, m_initialState.end(), real_type(0) );
                 }
             }
 
-- 
2.43.0


From d88a9ebb396cb17d8c1c3d280bbb416eccd0e52a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:06:32 +0000
Subject: [PATCH 36/42] fix: no crash when optional solver components are left
 out through parameters

---
 .../ode_num_int/alg/interfaces/NewtonSolverInterface.h   | 9 ++++++---
 include/ode_num_int/ode/interfaces/OdeNewtonSolver.h     | 7 ++++++-
 .../ode/interfaces/OdeSolverErrorNormCalculator.h        | 3 ++-
 3 files changed, 14 insertions(+), 5 deletions(-)

diff --git a/include/ode_num_int/alg/interfaces/NewtonSolverInterface.h b/include/ode_num_int/alg/interfaces/NewtonSolverInterface.h
index e3659da..2f01113 100644
--- a/include/ode_num_int/alg/interfaces/NewtonSolverInterface.h
+++ b/include/ode_num_int/alg/interfaces/NewtonSolverInterface.h
@@ -154,8 +154,10 @@ class NewtonSolverInterface :
                 auto ddir = itperf->newtonDescentDirection();
                 result["ddir"] = ddir;
                 if( ddir ) {
-                    result["jacobian"] = ddir->jacobianProvider();
-                    result["jtrim"] = ddir->jacobianProvider()->jacobianTrimmer();
+                    auto jp = ddir->jacobianProvider();
+                    result["jacobian"] = jp;
+                    if( jp )
+                        result["jtrim"] = jp->jacobianTrimmer();
                     }
                 result["linsearch"] = itperf->newtonLinearSearch();
                 result["err"] = itperf->errorEstimator();
@@ -210,7 +212,8 @@ class NewtonSolverInterface :
                             parameters, "linsearch",
                             [itperf]( const std::shared_ptr< NewtonLinearSearch<VD> >& lineSearch )
                             {
-                            lineSearch->setMapping( itperf->mapping() );
+                            if( lineSearch )
+                                lineSearch->setMapping( itperf->mapping() );
                             itperf->setNewtonLinearSearch( lineSearch );
                             } );
 
diff --git a/include/ode_num_int/ode/interfaces/OdeNewtonSolver.h b/include/ode_num_int/ode/interfaces/OdeNewtonSolver.h
index 95496d1..ef5a9b2 100644
--- a/include/ode_num_int/ode/interfaces/OdeNewtonSolver.h
+++ b/include/ode_num_int/ode/interfaces/OdeNewtonSolver.h
@@ -34,7 +34,12 @@ class OdeNewtonSolver :
         void loadParameters( const Parameters& parameters ) {
             OptionalParameters::maybeSetParameter(
                         parameters, "algsolver",
-                        std::bind( &OdeNewtonSolver<VD>::setNewtonSolver, this, std::placeholders::_1 ) );
+                        [this]( const std::shared_ptr< NewtonSolverInterface<VD> >& newtonSolver )
+                        {
+                        if( !newtonSolver )
+                            throw cxx::exception( "Algebraic equation solver is not specified" );
+                        this->setNewtonSolver( newtonSolver );
+                        } );
             }
 
         void addHelpOnParameters( Parameters& help ) {
diff --git a/include/ode_num_int/ode/interfaces/OdeSolverErrorNormCalculator.h b/include/ode_num_int/ode/interfaces/OdeSolverErrorNormCalculator.h
index 295eb60..f17f924 100644
--- a/include/ode_num_int/ode/interfaces/OdeSolverErrorNormCalculator.h
+++ b/include/ode_num_int/ode/interfaces/OdeSolverErrorNormCalculator.h
@@ -21,7 +21,8 @@ class OdeSolverErrorNormCalculator :
             OdeSolverComponent<VD>( solver )
             {
             auto updateOdeRhs = [this] {
-                this->errorNormCalculator()->setOdeRhs( this->solver().odeRhs() );
+                if( auto enc = this->errorNormCalculator() )
+                    enc->setOdeRhs( this->solver().odeRhs() );
                 };
             this->onErrorNormCalculatorChanged( updateOdeRhs );
             solver.onOdeRhsChanged( updateOdeRhs );
-- 
2.43.0


From 37b5b3aef8afac66a86c47a82b8564d647334502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:06:32 +0000
Subject: [PATCH 37/42] fix: Newton solver components replaced through
 parameters keep the parts not mentioned

---
 .../alg/interfaces/NewtonSolverInterface.h    | 32 +++++++++++++++++--
 1 file changed, 29 insertions(+), 3 deletions(-)

diff --git a/include/ode_num_int/alg/interfaces/NewtonSolverInterface.h b/include/ode_num_int/alg/interfaces/NewtonSolverInterface.h
index 2f01113..c520abc 100644
--- a/include/ode_num_int/alg/interfaces/NewtonSolverInterface.h
+++ b/include/ode_num_int/alg/interfaces/NewtonSolverInterface.h
@@ -169,7 +169,21 @@ class NewtonSolverInterface :
             {
             OptionalParameters::maybeSetParameter(
                         parameters, "itperf",
-                        std::bind( &NewtonSolverInterface<VD>::setIterationPerformer, this, std::placeholders::_1 ) );
+                        [this]( const std::shared_ptr< NewtonIterationPerformer<VD> >& itperf )
+                        {
+                        // Keep components that are not replaced
+                        auto old = this->iterationPerformer();
+                        if( itperf && old ) {
+                            itperf->setMapping( old->mapping() );
+                            if( !itperf->errorEstimator() )
+                                itperf->setErrorEstimator( old->errorEstimator() );
+                            if( !itperf->newtonDescentDirection() )
+                                itperf->setNewtonDescentDirection( old->newtonDescentDirection() );
+                            if( !itperf->newtonLinearSearch() )
+                                itperf->setNewtonLinearSearch( old->newtonLinearSearch() );
+                            }
+                        this->setIterationPerformer( itperf );
+                        } );
             auto itperf = this->iterationPerformer();
             OptionalParameters::maybeSetParameter(
                         parameters, "regularizer",
@@ -189,8 +203,13 @@ class NewtonSolverInterface :
                             parameters, "ddir",
                             [this, itperf]( const std::shared_ptr< NewtonDescentDirection<VD> >& ddir )
                             {
-                            if( ddir )
+                            if( ddir ) {
                                 ddir->setMapping( itperf->mapping() );
+                                // Keep Jacobian provider if it is not replaced
+                                auto old = itperf->newtonDescentDirection();
+                                if( old && !ddir->jacobianProvider() )
+                                    ddir->setJacobianProvider( old->jacobianProvider() );
+                                }
                             itperf->setNewtonDescentDirection( ddir );
                             auto rs = this->regularizationStrategy();
                             if( rs )
@@ -200,7 +219,14 @@ class NewtonSolverInterface :
                 if( ddir ) {
                     OptionalParameters::maybeSetParameter(
                                 parameters, "jacobian",
-                                std::bind( &NewtonDescentDirection<VD>::setJacobianProvider, ddir.get(), std::placeholders::_1 ) );
+                                [ddir]( const std::shared_ptr< JacobianProvider<VD> >& jp )
+                                {
+                                // Keep Jacobian trimmer if it is not replaced
+                                auto old = ddir->jacobianProvider();
+                                if( jp && old && !jp->jacobianTrimmer() )
+                                    jp->setJacobianTrimmer( old->jacobianTrimmer() );
+                                ddir->setJacobianProvider( jp );
+                                } );
                     auto jp = ddir->jacobianProvider();
                     if( jp )
                         OptionalParameters::maybeSetParameter(
-- 
2.43.0


From d3bb0aebe1d2f0ae7062c17886868079d14372bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:06:32 +0000
Subject: [PATCH 38/42] fix: extrapolator step sequences are registered with
 the solvers

---
 .../ode/reg/OdeSolverClassesRegistrator.h     | 29 +++++++++++++++++++
 1 file changed, 29 insertions(+)

diff --git a/include/ode_num_int/ode/reg/OdeSolverClassesRegistrator.h b/include/ode_num_int/ode/reg/OdeSolverClassesRegistrator.h
index 2297a58..8036889 100644
--- a/include/ode_num_int/ode/reg/OdeSolverClassesRegistrator.h
+++ b/include/ode_num_int/ode/reg/OdeSolverClassesRegistrator.h
@@ -12,6 +12,9 @@
 #include "../OdeSolverRosenbrock_SW2_4.h"
 #include "../OdeSolverGragg.h"
 #include "../OdeSolverExtrapolator.h"
+#include "../ExtrapolatorStepSequenceHarmonic.h"
+#include "../ExtrapolatorStepSequenceRomberg.h"
+#include "../ExtrapolatorStepSequenceBulirsch.h"
 #include "../OdeSolverImplicitEuler.h"
 
 namespace ctm {
@@ -27,8 +30,33 @@ CTM_DECL_IMPLEMENTATION_TEMPLATE_TRAITS( math::OdeSolverGragg, "gragg" )
 CTM_DECL_IMPLEMENTATION_TEMPLATE_TRAITS( math::OdeSolverExtrapolator, "extrapolator" )
 CTM_DECL_IMPLEMENTATION_TEMPLATE_TRAITS( math::OdeSolverImplicitEuler, "i_euler" )
 
+CTM_DECL_IMPLEMENTATION_TRAITS( math::ExtrapolatorStepSequenceHarmonic, "harmonic" )
+CTM_DECL_IMPLEMENTATION_TRAITS( math::ExtrapolatorStepSequenceRomberg, "romberg" )
+CTM_DECL_IMPLEMENTATION_TRAITS( math::ExtrapolatorStepSequenceBulirsch, "bulirsch" )
+
 namespace math {
 
+/// \brief Registers step sequences, which do not depend on vector data and are therefore registered
+/// just once, no matter how many instances of OdeSolverClassesRegistrator there are.
+class ExtrapolatorStepSequenceClassesRegistrator
+    {
+    public:
+        ExtrapolatorStepSequenceClassesRegistrator()
+            {
+            registerOnce< ExtrapolatorStepSequenceHarmonic >();
+            registerOnce< ExtrapolatorStepSequenceRomberg >();
+            registerOnce< ExtrapolatorStepSequenceBulirsch >();
+            }
+
+    private:
+        template< class Sequence >
+        static void registerOnce()
+            {
+            if( !Factory<ExtrapolatorStepSequence>::isTypeRegistered( ImplementationTypeTraits<Sequence>::typeId() ) )
+                ImplementationRegistrator<Sequence>();
+            }
+    };
+
 template< class VD >
 class OdeSolverClassesRegistrator
     {
@@ -43,6 +71,7 @@ class OdeSolverClassesRegistrator
         CTM_DECL_IMPLEMENTATION_TEMPLATE_REGISTRATOR( OdeSolverGragg, VD )
         CTM_DECL_IMPLEMENTATION_TEMPLATE_REGISTRATOR( OdeSolverExtrapolator, VD )
         CTM_DECL_IMPLEMENTATION_TEMPLATE_REGISTRATOR( OdeSolverImplicitEuler, VD )
+        ExtrapolatorStepSequenceClassesRegistrator m_extrapolatorStepSequenceClassesRegistrator;
     };
 
 } // end namespace math
-- 
2.43.0


From 27410fba8e0306e9528f4abfc4184e7ccd221ba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:06:32 +0000
Subject: [PATCH 39/42] fix: observers may be removed during a notification

---
 include/ode_num_int/infra/cxx_observers.h | 24 +++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/include/ode_num_int/infra/cxx_observers.h b/include/ode_num_int/infra/cxx_observers.h
index b8d2ab9..f474edb 100644
--- a/include/ode_num_int/infra/cxx_observers.h
+++ b/include/ode_num_int/infra/cxx_observers.h
@@ -70,6 +70,20 @@ class IdentifiedElements
             return m_elements.empty();
             }
 
+    protected:
+        /// \brief Calls \a f for each element, from first to last.
+        /// \note The sequence may be modified by \a f: elements removed are not visited any more,
+        /// and the element being visited stays alive until \a f returns.
+        template< class F >
+        void visitElements( F f ) const
+            {
+            for( auto it=m_elements.begin(); it!=m_elements.end(); ) {
+                auto idAndElement = *it;
+                f( idAndElement.second );
+                it = m_elements.upper_bound( idAndElement.first );
+                }
+            }
+
     private:
         std::map< int, T > m_elements;
         int newId() const
@@ -202,8 +216,9 @@ class Observers : public IdentifiedElements< std::function<void(args ...)> >
 
         /// \brief Invokes all callbacks in the sequence, from first to last.
         void operator()( args... a ) const {
-            for( const auto& idAndObserver : *this )
-                idAndObserver.second( a... );
+            this->visitElements( [&]( const cb_type& observer ) {
+                observer( a... );
+                } );
             }
     };
 
@@ -228,8 +243,9 @@ class TerminatingObservers : public IdentifiedElements< std::function<bool(args
         /// the method returns false.
         bool operator()( args... a ) const {
             bool result = false;
-            for( const auto& idAndObserver : *this )
-                result = idAndObserver.second( a... ) || result;
+            this->visitElements( [&]( const cb_type& observer ) {
+                result = observer( a... ) || result;
+                } );
             return result;
             }
     };
-- 
2.43.0


From eaa3ee20a1b92a56ea5ba5c215e6cc9ae6cd869a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:06:32 +0000
Subject: [PATCH 40/42] fix: solution console output counts the output interval
 from the initial output

---
 include/ode_num_int/ode/ode_solver_output.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/ode_num_int/ode/ode_solver_output.h b/include/ode_num_int/ode/ode_solver_output.h
index 5c366fa..bba02c6 100644
--- a/include/ode_num_int/ode/ode_solver_output.h
+++ b/include/ode_num_int/ode/ode_solver_output.h
@@ -373,7 +373,8 @@ class OdeSolverStepSolutionConsoleOutput :
                 solverConfig, solverComponents, m_sizeHalfLimit, this->fileName() ) );
             auto s = solverComponents->solver().get();
             m_d->writeHeaders( s );
-            m_d->write( s );
+            if( m_d->outputNow( s->initialTime() ) )
+                m_d->write( s );
             }
 
         void afterSolve()
-- 
2.43.0


From 75fd2d8295cd7d8c0dd575dfa128f40c2a5ee192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:06:33 +0000
Subject: [PATCH 41/42] fix: solver configuration without right hand side
 reports it instead of crashing

---
 include/ode_num_int/ode/OdeSolverConfiguration.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/ode_num_int/ode/OdeSolverConfiguration.h b/include/ode_num_int/ode/OdeSolverConfiguration.h
index ae5d5ad..a37baa6 100644
--- a/include/ode_num_int/ode/OdeSolverConfiguration.h
+++ b/include/ode_num_int/ode/OdeSolverConfiguration.h
@@ -256,6 +256,8 @@ class OdeSolverConfiguration : public ComponentConfiguration
                     };
 
                 if( auto initState = getInitState() ) {
+                    if( !odeRhs )
+                        throw cxx::exception( "ODE right hand side is not specified" );
                     auto state = initState->initialState();
                     auto requiredStateSize = solver->odeRhs()->varCount();
                     if( state.size() != requiredStateSize )
-- 
2.43.0


From a6f12dd8d2e1778b63deaadd2401c81226d00a04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:31:13 +0000
Subject: [PATCH 42/42] fix: step sequences are registered by
 reg_ode_solvers.cpp already (reverts d3bb0ae)

---
 .../ode/reg/OdeSolverClassesRegistrator.h     | 29 -------------------
 1 file changed, 29 deletions(-)

diff --git a/include/ode_num_int/ode/reg/OdeSolverClassesRegistrator.h b/include/ode_num_int/ode/reg/OdeSolverClassesRegistrator.h
index 8036889..2297a58 100644
--- a/include/ode_num_int/ode/reg/OdeSolverClassesRegistrator.h
+++ b/include/ode_num_int/ode/reg/OdeSolverClassesRegistrator.h
@@ -12,9 +12,6 @@
 #include "../OdeSolverRosenbrock_SW2_4.h"
 #include "../OdeSolverGragg.h"
 #include "../OdeSolverExtrapolator.h"
-#include "../ExtrapolatorStepSequenceHarmonic.h"
-#include "../ExtrapolatorStepSequenceRomberg.h"
-#include "../ExtrapolatorStepSequenceBulirsch.h"
 #include "../OdeSolverImplicitEuler.h"
 
 namespace ctm {
@@ -30,33 +27,8 @@ CTM_DECL_IMPLEMENTATION_TEMPLATE_TRAITS( math::OdeSolverGragg, "gragg" )
 CTM_DECL_IMPLEMENTATION_TEMPLATE_TRAITS( math::OdeSolverExtrapolator, "extrapolator" )
 CTM_DECL_IMPLEMENTATION_TEMPLATE_TRAITS( math::OdeSolverImplicitEuler, "i_euler" )
 
-CTM_DECL_IMPLEMENTATION_TRAITS( math::ExtrapolatorStepSequenceHarmonic, "harmonic" )
-CTM_DECL_IMPLEMENTATION_TRAITS( math::ExtrapolatorStepSequenceRomberg, "romberg" )
-CTM_DECL_IMPLEMENTATION_TRAITS( math::ExtrapolatorStepSequenceBulirsch, "bulirsch" )
-
 namespace math {
 
-/// \brief Registers step sequences, which do not depend on vector data and are therefore registered
-/// just once, no matter how many instances of OdeSolverClassesRegistrator there are.
-class ExtrapolatorStepSequenceClassesRegistrator
-    {
-    public:
-        ExtrapolatorStepSequenceClassesRegistrator()
-            {
-            registerOnce< ExtrapolatorStepSequenceHarmonic >();
-            registerOnce< ExtrapolatorStepSequenceRomberg >();
-            registerOnce< ExtrapolatorStepSequenceBulirsch >();
-            }
-
-    private:
-        template< class Sequence >
-        static void registerOnce()
-            {
-            if( !Factory<ExtrapolatorStepSequence>::isTypeRegistered( ImplementationTypeTraits<Sequence>::typeId() ) )
-                ImplementationRegistrator<Sequence>();
-            }
-    };
-
 template< class VD >
 class OdeSolverClassesRegistrator
     {
@@ -71,7 +43,6 @@ class OdeSolverClassesRegistrator
         CTM_DECL_IMPLEMENTATION_TEMPLATE_REGISTRATOR( OdeSolverGragg, VD )
         CTM_DECL_IMPLEMENTATION_TEMPLATE_REGISTRATOR( OdeSolverExtrapolator, VD )
         CTM_DECL_IMPLEMENTATION_TEMPLATE_REGISTRATOR( OdeSolverImplicitEuler, VD )
-        ExtrapolatorStepSequenceClassesRegistrator m_extrapolatorStepSequenceClassesRegistrator;
     };
 
 } // end namespace math
-- 
2.43.0

