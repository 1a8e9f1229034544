From 296f940188f1b2232d4c023f375d677fd2cd7f34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:33 +0000
Subject: [PATCH 01/33] fix: DCT: forward transform picked up rounding residue
 of an earlier inverse

---
 dsp/transforms/DCT.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/dsp/transforms/DCT.cpp b/dsp/transforms/DCT.cpp
index 1ce1abe..104a073 100644
--- a/dsp/transforms/DCT.cpp
+++ b/dsp/transforms/DCT.cpp
@@ -35,6 +35,11 @@ DCT::~DCT()
 void
 DCT::forward(const double *in, double *out)
 {
+    // the even-indexed samples must be zero, but a preceding inverse()
+    // leaves rounding residue there
+    for (int i = 0; i < m_n*2; ++i) {
+        m_time2[i*2] = 0.0;
+    }
     for (int i = 0; i < m_n; ++i) {
         m_time2[i*2 + 1] = in[i];
         m_time2[m_n*4 - i*2 - 1] = in[i];
-- 
2.43.0


From 60e2540d2a7297f4d202b45097101f66b64b3f82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:40 +0000
Subject: [PATCH 02/33] fix: Filter: IIR history buffer was one element short
 for order 0

The output history is written at index m_offmax whenever it wraps, which is
past the end of m_bufa when the filter order is zero.
---
 dsp/signalconditioning/Filter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dsp/signalconditioning/Filter.cpp b/dsp/signalconditioning/Filter.cpp
index b737860..7322d4b 100644
--- a/dsp/signalconditioning/Filter.cpp
+++ b/dsp/signalconditioning/Filter.cpp
@@ -50,7 +50,7 @@ Filter::Filter(Parameters params)
     m_offb = m_offmax;
 
     if (!m_fir) {
-        m_bufa.resize(m_order + m_offmax);
+        m_bufa.resize(m_order + m_offmax + 1);
     }
 
     m_bufb.resize(m_sz + m_offmax);
-- 
2.43.0


From a0e80971a469af54a805b1ad99b25c2adcc1af4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:40 +0000
Subject: [PATCH 03/33] fix: FiltFilt: start every call from a cleared filter

The state left behind by the backward pass of one call leaked into the
forward pass of the next.
---
 dsp/signalconditioning/FiltFilt.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dsp/signalconditioning/FiltFilt.cpp b/dsp/signalconditioning/FiltFilt.cpp
index 3f011ca..4e8a9ef 100644
--- a/dsp/signalconditioning/FiltFilt.cpp
+++ b/dsp/signalconditioning/FiltFilt.cpp
@@ -71,6 +71,7 @@ void FiltFilt::process(const double *const QM_R__ src,
     
     ////////////////////////////////
     // Do 0Ph filtering
+    m_filter.reset();
     m_filter.process(filtScratchIn, filtScratchOut, nExt);
         
     // reverse the series for FILTFILT 
-- 
2.43.0


From d0db2523e6ad2b0317c2e02f528e9626e5de053c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:40 +0000
Subject: [PATCH 04/33] fix: KaiserWindow: window of length one was NaN

---
 base/KaiserWindow.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/base/KaiserWindow.cpp b/base/KaiserWindow.cpp
index 306b6aa..1edcb31 100644
--- a/base/KaiserWindow.cpp
+++ b/base/KaiserWindow.cpp
@@ -56,7 +56,8 @@ KaiserWindow::init()
     double denominator = bessel0(m_beta);
     bool even = (m_length % 2 == 0);
     for (int i = 0; i < (even ? m_length/2 : (m_length+1)/2); ++i) {
-        double k = double(2*i) / double(m_length-1) - 1.0;
+        double k = (m_length > 1 ?
+                    double(2*i) / double(m_length-1) - 1.0 : 0.0);
         m_window.push_back(bessel0(m_beta * sqrt(1.0 - k*k)) / denominator);
     }
     for (int i = 0; i < (even ? m_length/2 : (m_length-1)/2); ++i) {
-- 
2.43.0


From 8b4d497d062419ee133baa84e483574914ccde8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:40 +0000
Subject: [PATCH 05/33] fix: KaiserWindow: sum the Bessel series until it has
 converged

Twenty terms are too few for large beta (errors of 1e-4 and more above
about beta = 20).
---
 base/KaiserWindow.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/base/KaiserWindow.cpp b/base/KaiserWindow.cpp
index 1edcb31..14909b4 100644
--- a/base/KaiserWindow.cpp
+++ b/base/KaiserWindow.cpp
@@ -44,8 +44,10 @@ static double besselTerm(double x, int i)
 static double bessel0(double x)
 {
     double b = 0.0;
-    for (int i = 0; i < 20; ++i) {
-        b += besselTerm(x, i);
+    for (int i = 0; i <= 150; ++i) {
+        double t = besselTerm(x, i);
+        b += t;
+        if (t < b * 1e-17) break;
     }
     return b;
 }
-- 
2.43.0


From a1c7cc2e29fe5a9db16d7a1fce933bf3063daff5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:40 +0000
Subject: [PATCH 06/33] fix: DFProcess: median windows reaching beyond short
 inputs

With no more than winPre + winPost points the leading windows were read past
the end of the input and the trailing points got no or the wrong window.
---
 dsp/signalconditioning/DFProcess.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dsp/signalconditioning/DFProcess.cpp b/dsp/signalconditioning/DFProcess.cpp
index 996eb1e..01ab1d8 100644
--- a/dsp/signalconditioning/DFProcess.cpp
+++ b/dsp/signalconditioning/DFProcess.cpp
@@ -112,7 +112,7 @@ void DFProcess::medianFilter(double *src, double *dst)
             break;
         }
 
-        k = i + m_winPost + 1;
+        k = std::min( i + m_winPost + 1, m_length );
 
         for( j = 0; j < k; j++) {
             y[ j ] = src[ j ];
@@ -137,13 +137,13 @@ void DFProcess::medianFilter(double *src, double *dst)
         index++;
     }
 
-    for( i = std::max( m_length - m_winPost, 1); i < m_length; i++) {
+    for( i = index; i < m_length; i++) {
         
         if (index >= m_length) {
             break;
         }
 
-        k = std::max( i - m_winPre, 1);
+        k = std::max( i - m_winPre, 0);
 
         l = 0;
         for( j = k; j < m_length; j++) {
-- 
2.43.0


From 15964ebcb2786417eb76697abb231e8b07d40f90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:38 +0000
Subject: [PATCH 07/33] fix: DFProcess: an all-zero detection function came out
 as NaN

Its alpha norm is zero, and every point was divided by it.
---
 dsp/signalconditioning/DFProcess.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dsp/signalconditioning/DFProcess.cpp b/dsp/signalconditioning/DFProcess.cpp
index 01ab1d8..55d9878 100644
--- a/dsp/signalconditioning/DFProcess.cpp
+++ b/dsp/signalconditioning/DFProcess.cpp
@@ -186,6 +186,9 @@ void DFProcess::removeDCNormalize( double *src, double*dst )
 
     MathUtilities::getAlphaNorm( src, m_length, m_alphaNormParam, &DFAlphaNorm );
 
+    // the norm is zero only if every value is; leave those as zeros
+    if (DFAlphaNorm == 0.0) DFAlphaNorm = 1.0;
+
     for (int i = 0; i < m_length; i++) {
         dst[ i ] = ( src[ i ] - DFMin ) / DFAlphaNorm; 
     }
-- 
2.43.0


From 0ea61e14a5c3b011d370ec8053f07ded76ee82de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:35 +0000
Subject: [PATCH 08/33] fix: Polyfit.h: define functions inline

A program that included the header could not be linked with the library,
which already holds the same definitions (from PeakPicking.cpp).
---
 maths/Polyfit.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/maths/Polyfit.h b/maths/Polyfit.h
index 07c99cb..5bfe2b4 100644
--- a/maths/Polyfit.h
+++ b/maths/Polyfit.h
@@ -120,7 +120,7 @@ struct NSUtility
 
 // main PolyFit routine
 
-double TPolyFit::PolyFit2 (const vector<double> &x,
+inline double TPolyFit::PolyFit2 (const vector<double> &x,
                            const vector<double> &y,
                            vector<double> &coefs)
 // nterms = coefs.size()
@@ -197,7 +197,7 @@ double TPolyFit::PolyFit2 (const vector<double> &x,
 
 // Form square coefficient matrix
 
-void TPolyFit::Square (const Matrix &x,
+inline void TPolyFit::Square (const Matrix &x,
                        const vector<double> &y,
                        Matrix &a,
                        vector<double> &g,
@@ -224,7 +224,7 @@ void TPolyFit::Square (const Matrix &x,
 //---------------------------------------------------------------------------------
 
 
-bool TPolyFit::GaussJordan (Matrix &b,
+inline bool TPolyFit::GaussJordan (Matrix &b,
                             const vector<double> &y,
                             vector<double> &coef)
 //b square matrix of coefficients
@@ -287,7 +287,7 @@ bool TPolyFit::GaussJordan (Matrix &b,
 //----------------------------------------------------------------------------------------------
 
 
-bool TPolyFit::GaussJordan2(Matrix &b,
+inline bool TPolyFit::GaussJordan2(Matrix &b,
                             const vector<double> &y,
                             Matrix &w,
                             vector<vector<int> > &index)
-- 
2.43.0


From b1e374c5a29e7e59ee0f465db9ff5f6ab727cf77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:51 +0000
Subject: [PATCH 09/33] fix: ConstantQ: interleaved process wrote one element
 past its buffer

---
 dsp/chromagram/ConstantQ.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/dsp/chromagram/ConstantQ.cpp b/dsp/chromagram/ConstantQ.cpp
index d268756..63ffe0f 100644
--- a/dsp/chromagram/ConstantQ.cpp
+++ b/dsp/chromagram/ConstantQ.cpp
@@ -168,7 +168,6 @@ double* ConstantQ::process( const double* fftdata )
 
     for (int row=0; row < 2 * m_uK; row++) {
         m_CQdata[ row ] = 0;
-        m_CQdata[ row+1 ] = 0;
     }
     const int *fftbin = &(sk->is[0]);
     const int *cqbin = &(sk->js[0]);
-- 
2.43.0


From 7a09b16e70f9a2fa33fe98de80a99c1ba9919257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:51 +0000
Subject: [PATCH 10/33] fix: ConstantQ: regenerating the sparse kernel leaked
 the old one

---
 dsp/chromagram/ConstantQ.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dsp/chromagram/ConstantQ.cpp b/dsp/chromagram/ConstantQ.cpp
index 63ffe0f..1da69ba 100644
--- a/dsp/chromagram/ConstantQ.cpp
+++ b/dsp/chromagram/ConstantQ.cpp
@@ -123,6 +123,7 @@ void ConstantQ::sparsekernel()
     delete [] transfWindowRe;
     delete [] transfWindowIm;
 
+    delete m_sparseKernel;
     m_sparseKernel = sk;
 }
 
-- 
2.43.0


From 5e653e2dc449163e10139afa34c83e92406f79b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:57 +0000
Subject: [PATCH 11/33] fix: ConstantQ: interleaved process used each bin's
 lower neighbour

---
 dsp/chromagram/ConstantQ.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dsp/chromagram/ConstantQ.cpp b/dsp/chromagram/ConstantQ.cpp
index 1da69ba..77a0b3f 100644
--- a/dsp/chromagram/ConstantQ.cpp
+++ b/dsp/chromagram/ConstantQ.cpp
@@ -182,8 +182,8 @@ double* ConstantQ::process( const double* fftdata )
         if (col == 0) continue;
         const double & r1 = real[i];
         const double & i1 = imag[i];
-        const double & r2 = fftdata[ (2*m_FFTLength) - 2*col - 2 ];
-        const double & i2 = fftdata[ (2*m_FFTLength) - 2*col - 2 + 1 ];
+        const double & r2 = fftdata[ (2*m_FFTLength) - 2*col ];
+        const double & i2 = fftdata[ (2*m_FFTLength) - 2*col + 1 ];
         // add the multiplication
         m_CQdata[ 2*row  ] += (r1*r2 - i1*i2);
         m_CQdata[ 2*row+1] += (r1*i2 + i1*r2);
-- 
2.43.0


From 766925cb0effeb0dd348174d1a8d1d2695c6f331 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:08 +0000
Subject: [PATCH 12/33] fix: TempoTrack: findMeter leaked an unused buffer on
 every call

---
 dsp/tempotracking/TempoTrack.cpp | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/dsp/tempotracking/TempoTrack.cpp b/dsp/tempotracking/TempoTrack.cpp
index ac0aadb..eced73f 100644
--- a/dsp/tempotracking/TempoTrack.cpp
+++ b/dsp/tempotracking/TempoTrack.cpp
@@ -436,14 +436,11 @@ int TempoTrack::findMeter(double *ACF, int len, double period)
     double temp4A = 0.0;
     double temp4B = 0.0;
 
-    double* dbf = new double[ len ]; int t = 0;
-    for( int u = 0; u < len; u++ ){ dbf[ u ] = 0.0; }
 
     if( (double)len < 6 * p + 2 ) {
         
         for( i = ( 3 * p - 2 ); i < ( 3 * p + 2 ) + 1; i++ ) {
             temp3A += ACF[ i ];
-            dbf[ t++ ] = ACF[ i ];
         }
         
         for( i = ( 4 * p - 2 ); i < ( 4 * p + 2 ) + 1; i++ ) {
-- 
2.43.0


From 01997bc72ab224f6daa915d9fd32d2b94dee79c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:08 +0000
Subject: [PATCH 13/33] fix: TempoTrack: peak searches read past the end of the
 autocorrelation

---
 dsp/tempotracking/TempoTrack.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dsp/tempotracking/TempoTrack.cpp b/dsp/tempotracking/TempoTrack.cpp
index eced73f..cb7d0c0 100644
--- a/dsp/tempotracking/TempoTrack.cpp
+++ b/dsp/tempotracking/TempoTrack.cpp
@@ -67,7 +67,10 @@ void TempoTrack::initialise( TTParams Params )
 
     m_rawDFFrame = new double[ m_winLength ];
     m_smoothDFFrame = new double[ m_winLength ];
-    m_frameACF = new double[ m_winLength ];
+    // The peak searches around four (or six) times the period can look
+    // up to three lags beyond the end: keep zeros there
+    m_frameACF = new double[ m_winLength + 3 ];
+    for (int i = 0; i < m_winLength + 3; ++i) m_frameACF[ i ] = 0.0;
     m_tempoScratch = new double[ m_lagLength ];
     m_smoothRCF = new double[ m_lagLength ];
 
-- 
2.43.0


From b71926c7429d9035c01f9225615872059512a2b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:10 +0000
Subject: [PATCH 14/33] fix: TempoTrackV2: calculateBeats read before the start
 of short inputs

---
 dsp/tempotracking/TempoTrackV2.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/dsp/tempotracking/TempoTrackV2.cpp b/dsp/tempotracking/TempoTrackV2.cpp
index 72812b2..9d543a0 100644
--- a/dsp/tempotracking/TempoTrackV2.cpp
+++ b/dsp/tempotracking/TempoTrackV2.cpp
@@ -465,12 +465,14 @@ TempoTrackV2::calculateBeats(const vector<double> &df,
 
     // STARTING POINT, I.E. LAST BEAT.. PICK A STRONG POINT IN cumscore VECTOR
     d_vec_t tmp_vec;
-    for (int i = df_len - beat_period[beat_period.size()-1] ; i < df_len; i++) {
+    int firstcand = df_len - beat_period[beat_period.size()-1];
+    // input may be shorter than a single beat period
+    if (firstcand < 0) firstcand = 0;
+    for (int i = firstcand; i < df_len; i++) {
         tmp_vec.push_back(cumscore[i]);
     }
 
-    int startpoint = get_max_ind(tmp_vec) +
-        df_len - beat_period[beat_period.size()-1] ;
+    int startpoint = get_max_ind(tmp_vec) + firstcand;
 
     // can happen if no results obtained earlier (e.g. input too short)
     if (startpoint >= int(backlink.size())) {
-- 
2.43.0


From d9777117054bc87e987a30ad71a5af0ebc3c3f1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:31 +0000
Subject: [PATCH 15/33] fix: TempoTrack: a second process call read frames from
 beyond its data

---
 dsp/tempotracking/TempoTrack.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dsp/tempotracking/TempoTrack.cpp b/dsp/tempotracking/TempoTrack.cpp
index cb7d0c0..b1fc4d4 100644
--- a/dsp/tempotracking/TempoTrack.cpp
+++ b/dsp/tempotracking/TempoTrack.cpp
@@ -651,6 +651,7 @@ vector<int> TempoTrack::process( vector <double> DF,
     for(int clear = 0; clear < m_lagLength; clear++){ PW[ clear ] = 0.0;}
 
     m_DFFramer.setSource( &causalDF[0], m_dataLength );
+    m_DFFramer.resetCounters();
 
     int TTFrames = m_DFFramer.getMaxNoFrames();
 
-- 
2.43.0


From 81a1be57717f01df20fc9a322329c412f3b379cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:51 +0000
Subject: [PATCH 16/33] fix: TCSGram: frame duration was uninitialised until
 set

---
 dsp/tonal/TCSgram.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dsp/tonal/TCSgram.cpp b/dsp/tonal/TCSgram.cpp
index 4806096..c0e7af2 100644
--- a/dsp/tonal/TCSgram.cpp
+++ b/dsp/tonal/TCSgram.cpp
@@ -23,7 +23,8 @@
 #include "maths/MathUtilities.h"
 
 TCSGram::TCSGram() :
-    m_uNumBins(6)
+    m_uNumBins(6),
+    m_dFrameDurationMS(0)
 {
 }
 
-- 
2.43.0


From ce6d553a8f577f62050e97a82486cc397068caec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:19 +0000
Subject: [PATCH 17/33] fix: pca_project: components were not in order of
 variance

The QL reduction leaves the eigenvalues in no particular order, so
taking the last eigenvectors as the leading components could drop the
direction of greatest variance altogether.
---
 maths/pca/pca.c | 30 ++++++++++++++++++++++++++++++
 1 file changed, 30 insertions(+)

diff --git a/maths/pca/pca.c b/maths/pca/pca.c
index fa8d1de..cb9a609 100644
--- a/maths/pca/pca.c
+++ b/maths/pca/pca.c
@@ -248,6 +248,35 @@ void tqli(double* d, double* e, int n, double** z)
     }
 }
 
+/* Sort eigenvalues into ascending order, with their eigenvectors (the
+   columns of z): tqli does not leave them in any particular order. */
+static void eigsort(double* d, int n, double** z)
+{
+    int i, j, k, min;
+    double tmp;
+
+    for (i = 0; i < n-1; i++)
+    {
+        min = i;
+        for (j = i+1; j < n; j++)
+        {
+            if (d[j] < d[min]) min = j;
+        }
+        if (min != i)
+        {
+            tmp = d[i];
+            d[i] = d[min];
+            d[min] = tmp;
+            for (k = 0; k < n; k++)
+            {
+                tmp = z[k][i];
+                z[k][i] = z[k][min];
+                z[k][min] = tmp;
+            }
+        }
+    }
+}
+
 /* In place projection onto basis vectors */
 void pca_project(double** data, int n, int m, int ncomponents)
 {
@@ -277,6 +306,7 @@ void pca_project(double** data, int n, int m, int ncomponents)
     //}
     tred2(symmat, m, evals, interm);  /* Triangular decomposition */
     tqli(evals, interm, m, symmat);   /* Reduction of sym. trid. matrix */
+    eigsort(evals, m, symmat);        /* Ascending order of eigenvalue */
 /* evals now contains the eigenvalues,
    columns of symmat now contain the associated eigenvectors. */   
 
-- 
2.43.0


From 2f27406090bd57b810b16edbb495c4dc30b6189d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:24 +0000
Subject: [PATCH 18/33] fix: dlamch: programs using LAPACK could not be linked

The warning about EMIN was written with libf2c's formatted output
routines, which are not part of this library.
---
 ext/cblas/src/dlamch.c | 17 ++---------------
 1 file changed, 2 insertions(+), 15 deletions(-)

diff --git a/ext/cblas/src/dlamch.c b/ext/cblas/src/dlamch.c
index 1243e82..2c04020 100644
--- a/ext/cblas/src/dlamch.c
+++ b/ext/cblas/src/dlamch.c
@@ -10,12 +10,12 @@
 		http://www.netlib.org/f2c/libf2c.zip
 */
 
+#include <stdio.h>
 #include "f2c.h"
 #include "blaswrap.h"
 
 /* Table of constant values */
 
-static integer c__1 = 1;
 static doublereal c_b32 = 0.;
 
 doublereal dlamch_(char *cmach)
@@ -381,20 +381,12 @@ L30:
     static logical first = TRUE_;
     static logical iwarn = FALSE_;
 
-    /* Format strings */
-    static char fmt_9999[] = "(//\002 WARNING. The value EMIN may be incorre"
-	    "ct:-\002,\002  EMIN = \002,i8,/\002 If, after inspection, the va"
-	    "lue EMIN looks\002,\002 acceptable please comment out \002,/\002"
-	    " the IF block as marked within the code of routine\002,\002 DLAM"
-	    "C2,\002,/\002 otherwise supply EMIN explicitly.\002,/)";
-
     /* System generated locals */
     integer i__1;
     doublereal d__1, d__2, d__3, d__4, d__5;
 
     /* Builtin functions */
     double pow_di(doublereal *, integer *);
-    integer s_wsfe(cilist *), do_fio(integer *, char *, ftnlen), e_wsfe(void);
 
     /* Local variables */
     doublereal a, b, c__;
@@ -424,9 +416,6 @@ L30:
 	    doublereal *);
     integer ngnmin, ngpmin;
 
-    /* Fortran I/O blocks */
-    static cilist io___58 = { 0, 6, 0, fmt_9999, 0 };
-
 
 
 /*  -- LAPACK auxiliary routine (version 3.2) -- */
@@ -640,9 +629,7 @@ L10:
 /* Comment out this if block if EMIN is ok */
 	if (iwarn) {
 	    first = TRUE_;
-	    s_wsfe(&io___58);
-	    do_fio(&c__1, (char *)&lemin, (ftnlen)sizeof(integer));
-	    e_wsfe();
+	    fprintf(stderr, "WARNING. The value EMIN may be incorrect:- EMIN = %d\n", (int)lemin);
 	}
 /* ** */
 
-- 
2.43.0


From e341918eb9cfd432a9a8d64e8ffbd4d314ebec6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:17 +0000
Subject: [PATCH 19/33] fix: hmm_train: stop on an infinite likelihood as on
 NaN

An observation whose densities all underflow makes the likelihood zero;
at the last frame that gives an infinity, not NaN, and re-estimation
then filled the model with NaNs.
---
 hmm/hmm.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hmm/hmm.c b/hmm/hmm.c
index e00e829..da558fc 100644
--- a/hmm/hmm.c
+++ b/hmm/hmm.c
@@ -201,7 +201,7 @@ void hmm_train(double** x, int T, model_t* model)
         }
         forward_backwards(xi, gamma, &loglik, &loglik1, &loglik2,
                           iter, N, T, p0, a, b);
-        if (ISNAN(loglik)) {
+        if (ISNAN(loglik) || ISINF(loglik)) {
             foundnan = 1;
             continue;
         }
-- 
2.43.0


From ffb5726d033182530b3a26cad1264ecf5e4b5fb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:37 +0000
Subject: [PATCH 20/33] fix: baum_welch: mean of a state that is never occupied
 became NaN

---
 hmm/hmm.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hmm/hmm.c b/hmm/hmm.c
index da558fc..9237bdd 100644
--- a/hmm/hmm.c
+++ b/hmm/hmm.c
@@ -317,6 +317,9 @@ void baum_welch(double* p0, double** a, double** mu, double** cov,
         
     /* re-estimate means */
     for (j = 0; j < N; j++) {
+        if (sum_gamma[j] == 0.) {
+            continue;           /* state never occupied: leave its mean alone */
+        }
         for (d = 0; d < L; d++) {
             mu[j][d] = 0;
             for (t = 0; t < T; t++)
-- 
2.43.0


From c7aec14b7f882eb770fd9541c2b6fad32bbf557a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:33 +0000
Subject: [PATCH 21/33] fix: hmm_close: initial probabilities were not freed

---
 hmm/hmm.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hmm/hmm.c b/hmm/hmm.c
index 9237bdd..ee6eef7 100644
--- a/hmm/hmm.c
+++ b/hmm/hmm.c
@@ -131,6 +131,7 @@ void hmm_close(model_t* model)
         free(model->a[i]);
         free(model->mu[i]);
     }
+    free(model->p0);
     free(model->a);
     free(model->mu);
     for (i = 0; i < model->L; i++) {
-- 
2.43.0


From 8ac2587c4476012ef4ff6a8a8e3188582af5bfd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:33 +0000
Subject: [PATCH 22/33] fix: invert: pivot indices were not freed

---
 hmm/hmm.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hmm/hmm.c b/hmm/hmm.c
index ee6eef7..84a9ec4 100644
--- a/hmm/hmm.c
+++ b/hmm/hmm.c
@@ -612,6 +612,7 @@ void invert(double** cov, int L, double** icov, double* detcov)
 #ifndef HAVE_ATLAS	
     free(work);
 #endif
+    free(ipiv);
     free(a);	
 }
 
-- 
2.43.0


From 44a3e1d202ee493bcf3d985868c654f07953ff93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:53 +0000
Subject: [PATCH 23/33] fix: Window: assignment leaked the previous window

---
 base/Window.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/base/Window.h b/base/Window.h
index 8c32753..e5970cf 100644
--- a/base/Window.h
+++ b/base/Window.h
@@ -53,6 +53,7 @@ public:
         if (&w == this) return *this;
         m_type = w.m_type;
         m_size = w.m_size;
+        delete[] m_cache;
         encache();
         return *this;
     }
-- 
2.43.0


From f1015205c3795c9f41f547262f431790e786f647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:53 +0000
Subject: [PATCH 24/33] fix: ClusterMeltSegmenter: leaks on repeated initialise
 and of the MFCC object

---
 dsp/segmentation/ClusterMeltSegmenter.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/dsp/segmentation/ClusterMeltSegmenter.cpp b/dsp/segmentation/ClusterMeltSegmenter.cpp
index 6fbb3b5..fedb82a 100644
--- a/dsp/segmentation/ClusterMeltSegmenter.cpp
+++ b/dsp/segmentation/ClusterMeltSegmenter.cpp
@@ -51,6 +51,16 @@ void ClusterMeltSegmenter::initialise(int fs)
 {
     samplerate = fs;
 
+    // may be called more than once
+    delete constq;
+    constq = NULL;
+    delete mfcc;
+    mfcc = NULL;
+    delete decimator;
+    decimator = NULL;
+    delete fft;
+    fft = NULL;
+
     if (featureType == FEATURE_TYPE_CONSTQ ||
         featureType == FEATURE_TYPE_CHROMA) {
         
@@ -116,6 +126,7 @@ ClusterMeltSegmenter::~ClusterMeltSegmenter()
 {
     delete window;
     delete constq;
+    delete mfcc;
     delete decimator;
     delete fft;
 }
-- 
2.43.0


From 89dfa4ae3cc18fe7cad40cc23a19297159a330ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:53 +0000
Subject: [PATCH 25/33] fix: constq_segment: fewer than 20 constant-Q bins
 overran the features

---
 dsp/segmentation/cluster_segmenter.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dsp/segmentation/cluster_segmenter.c b/dsp/segmentation/cluster_segmenter.c
index 1b3e591..ae9123f 100644
--- a/dsp/segmentation/cluster_segmenter.c
+++ b/dsp/segmentation/cluster_segmenter.c
@@ -214,6 +214,9 @@ void constq_segment(int* q, double** features, int frames_read, int bins, int nc
 
         /* do PCA on the features (but not the envelope) */
         int ncomponents = 20;
+        if (ncomponents > ncoeff) {
+            ncomponents = ncoeff;
+        }
         pca_project(features, frames_read, ncoeff, ncomponents);
                 
         /* copy the envelope so that it immediatly follows the chosen components */
-- 
2.43.0


From 41344c1b96f6944884620253a9057b8a054b4d02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:52 +0000
Subject: [PATCH 26/33] fix: pca: silence (constant data) could end the process

The QL iteration compared off-diagonal elements only with their diagonal
neighbours; where those were rounding residue too it never converged, and
the error handler called exit.
---
 maths/pca/pca.c | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/maths/pca/pca.c b/maths/pca/pca.c
index cb9a609..e7fc977 100644
--- a/maths/pca/pca.c
+++ b/maths/pca/pca.c
@@ -22,6 +22,7 @@
 #include <stdio.h>
 #include <stdlib.h>
 #include <math.h>
+#include <float.h>
 
 #include "pca.h"
 
@@ -187,11 +188,23 @@ void tred2(double** a, int n, double* d, double* e)
 void tqli(double* d, double* e, int n, double** z)
 {
     int m, l, iter, i, k;
-    double s, r, p, g, f, dd, c, b;
+    double s, r, p, g, f, dd, c, b, tol;
         
     for (i = 1; i < n; i++)
         e[i-1] = e[i];
     e[n-1] = 0.0;
+
+/* Off-diagonal elements that are negligible against the matrix as a
+   whole count as zero: they may never become so against their diagonal
+   neighbours if those are (as for silence) rounding residue as well. */
+    tol = 0.0;
+    for (i = 0; i < n; i++)
+    {
+        dd = fabs(d[i]) + fabs(e[i]);
+        if (dd > tol) tol = dd;
+    }
+    tol *= DBL_EPSILON;
+
     for (l = 0; l < n; l++)
     {
         iter = 0;
@@ -200,7 +213,7 @@ void tqli(double* d, double* e, int n, double** z)
             for (m = l; m < n-1; m++)
             {
                 dd = fabs(d[m]) + fabs(d[m+1]);
-                if (fabs(e[m]) + dd == dd) break;
+                if (fabs(e[m]) + dd == dd || fabs(e[m]) <= tol) break;
             }
             if (m != l)
             {
-- 
2.43.0


From 6d24292a047aad404632946d604623df9b52245d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:55 +0000
Subject: [PATCH 27/33] fix: Condition: a wait ending exactly on a second was
 not waited for

tv_nsec came out as 1000000000, which pthread_cond_timedwait rejects.
---
 thread/Thread.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/thread/Thread.cpp b/thread/Thread.cpp
index 54820a0..8ad201a 100644
--- a/thread/Thread.cpp
+++ b/thread/Thread.cpp
@@ -510,7 +510,7 @@ Condition::wait(int us)
         gettimeofday(&now, 0);
 
         now.tv_usec += us;
-        while (now.tv_usec > 1000000) {
+        while (now.tv_usec >= 1000000) {
             now.tv_usec -= 1000000;
             ++now.tv_sec;
         }
-- 
2.43.0


From 716eb20b5fd55d5a743093ea876b0d9383124953 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:55 +0000
Subject: [PATCH 28/33] fix: AsynchronousTask: a spurious wakeup ended
 awaitTask early

POSIX permits pthread_cond_wait to return without a signal, so wait until
the task is seen to be complete.
---
 thread/AsynchronousTask.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/thread/AsynchronousTask.h b/thread/AsynchronousTask.h
index e34bec0..2a6580c 100644
--- a/thread/AsynchronousTask.h
+++ b/thread/AsynchronousTask.h
@@ -70,7 +70,9 @@ protected:
         m_todo.unlock();
     }
     void awaitTask() {
-        m_done.wait();
+        while (m_inTask) {
+            m_done.wait();
+        }
         m_done.unlock();
     }
 
-- 
2.43.0


From ab84931f3e01af857fdba74df55418870261b93b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:55 +0000
Subject: [PATCH 29/33] fix: BlockAllocator: more than 1024 blocks freed memory
 in use

Growing the vector of blocks past its reserved capacity copied the blocks
and destroyed the originals, with the memory that they own. Also include
the standard headers used.
---
 thread/BlockAllocator.h | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/thread/BlockAllocator.h b/thread/BlockAllocator.h
index 6b4c9f5..af5a376 100644
--- a/thread/BlockAllocator.h
+++ b/thread/BlockAllocator.h
@@ -35,6 +35,8 @@ THE SOFTWARE.
 #define QM_DSP_BLOCK_ALLOCATOR_H
 
 #include <cstdlib>
+#include <deque>
+#include <vector>
 
 /**
  * BlockAllocator is a simple allocator for fixed-size (usually small)
@@ -174,11 +176,8 @@ private:
 
     struct Blocks
     {
-        std::vector<Block> data;
-
-        Blocks() {
-            data.reserve(1024);
-        }
+        // a deque, because blocks own their memory and cannot be moved
+        std::deque<Block> data;
     };
 
     const int m_sz;
-- 
2.43.0


From 1f922869d13a68871211e68526b23c667fce82d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:03 +0000
Subject: [PATCH 30/33] fix: ilaenv, dlamch: static locals broke concurrent HMM
 and matrix use

---
 ext/cblas/src/dlamch.c   | 36 ++++++++++++++++++------------------
 ext/clapack/src/ilaenv.c | 14 +++++++-------
 2 files changed, 25 insertions(+), 25 deletions(-)

diff --git a/ext/cblas/src/dlamch.c b/ext/cblas/src/dlamch.c
index 2c04020..4e66973 100644
--- a/ext/cblas/src/dlamch.c
+++ b/ext/cblas/src/dlamch.c
@@ -22,7 +22,7 @@ doublereal dlamch_(char *cmach)
 {
     /* Initialized data */
 
-    static logical first = TRUE_;
+    logical first = TRUE_;
 
     /* System generated locals */
     integer i__1;
@@ -32,18 +32,18 @@ doublereal dlamch_(char *cmach)
     double pow_di(doublereal *, integer *);
 
     /* Local variables */
-    static doublereal t;
+    doublereal t;
     integer it;
-    static doublereal rnd, eps, base;
+    doublereal rnd, eps, base;
     integer beta;
-    static doublereal emin, prec, emax;
+    doublereal emin, prec, emax;
     integer imin, imax;
     logical lrnd;
-    static doublereal rmin, rmax;
+    doublereal rmin, rmax;
     doublereal rmach;
     extern logical lsame_(char *, char *);
     doublereal small;
-    static doublereal sfmin;
+    doublereal sfmin;
     extern /* Subroutine */ int dlamc2_(integer *, integer *, logical *, 
 	    doublereal *, integer *, doublereal *, integer *, doublereal *);
 
@@ -170,20 +170,20 @@ doublereal dlamch_(char *cmach)
 {
     /* Initialized data */
 
-    static logical first = TRUE_;
+    logical first = TRUE_;
 
     /* System generated locals */
     doublereal d__1, d__2;
 
     /* Local variables */
     doublereal a, b, c__, f, t1, t2;
-    static integer lt;
+    integer lt;
     doublereal one, qtr;
-    static logical lrnd;
-    static integer lbeta;
+    logical lrnd;
+    integer lbeta;
     doublereal savec;
     extern doublereal dlamc3_(doublereal *, doublereal *);
-    static logical lieee1;
+    logical lieee1;
 
 
 /*  -- LAPACK auxiliary routine (version 3.2) -- */
@@ -378,8 +378,8 @@ L30:
 {
     /* Initialized data */
 
-    static logical first = TRUE_;
-    static logical iwarn = FALSE_;
+    logical first = TRUE_;
+    logical iwarn = FALSE_;
 
     /* System generated locals */
     integer i__1;
@@ -391,21 +391,21 @@ L30:
     /* Local variables */
     doublereal a, b, c__;
     integer i__;
-    static integer lt;
+    integer lt;
     doublereal one, two;
     logical ieee;
     doublereal half;
     logical lrnd;
-    static doublereal leps;
+    doublereal leps;
     doublereal zero;
-    static integer lbeta;
+    integer lbeta;
     doublereal rbase;
-    static integer lemin, lemax;
+    integer lemin, lemax;
     integer gnmin;
     doublereal small;
     integer gpmin;
     doublereal third;
-    static doublereal lrmin, lrmax;
+    doublereal lrmin, lrmax;
     doublereal sixth;
     extern /* Subroutine */ int dlamc1_(integer *, integer *, logical *, 
 	    logical *);
diff --git a/ext/clapack/src/ilaenv.c b/ext/clapack/src/ilaenv.c
index 425f141..38ff960 100644
--- a/ext/clapack/src/ilaenv.c
+++ b/ext/clapack/src/ilaenv.c
@@ -19,14 +19,14 @@ integer ilaenv_(integer *ispec, char *name__, char *opts, integer *n1,
     integer s_cmp(char *, char *, ftnlen, ftnlen);
 
     /* Local variables */
-    static integer i__;
-    static char c1[1], c2[2], c3[3], c4[2];
-    static integer ic, nb, iz, nx;
-    static logical cname;
-    static integer nbmin;
-    static logical sname;
+    integer i__;
+    char c1[1], c2[2], c3[3], c4[2];
+    integer ic, nb, iz, nx;
+    logical cname;
+    integer nbmin;
+    logical sname;
     extern integer ieeeck_(integer *, real *, real *);
-    static char subnam[6];
+    char subnam[6];
     extern integer iparmq_(integer *, char *, char *, integer *, integer *, 
 	    integer *, integer *);
 
-- 
2.43.0


From bd0e4051df20ad28a265d1cccb9629a7c3fa3b74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:48:50 +0000
Subject: [PATCH 31/33] fix: real-valued octave distance in the tempo tracker's
 choice of lag pair

abs() of a double resolved to the integer function here, truncating the
log ratio of the two lags, so that pairs far from an octave apart were
treated as octaves (elsewhere the overload for double is found).
---
 dsp/tempotracking/TempoTrack.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dsp/tempotracking/TempoTrack.cpp b/dsp/tempotracking/TempoTrack.cpp
index b1fc4d4..9a0328e 100644
--- a/dsp/tempotracking/TempoTrack.cpp
+++ b/dsp/tempotracking/TempoTrack.cpp
@@ -235,7 +235,7 @@ double TempoTrack::tempoMM(double* ACF, double* weight, int tsig)
                 double log2PeriodRatio = log( static_cast<double>(i)/
                                               static_cast<double>(j) ) /
                     log(2.0);
-                rcfMat[i][j] = ( abs(1.0-abs(log2PeriodRatio)) );
+                rcfMat[i][j] = ( fabs(1.0-fabs(log2PeriodRatio)) );
                 rcfMat[i][j] += ( 0.01*( 1./(m_tempoScratch[i]+m_tempoScratch[j]) ) );
             }
         }
-- 
2.43.0


From ddd9d85ee34773468caef50f0568bf0ce3ba8659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:11:39 +0000
Subject: [PATCH 32/33] fix: Decimator: factor one honours overlapping source
 and destination

---
 dsp/rateconversion/Decimator.cpp | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/dsp/rateconversion/Decimator.cpp b/dsp/rateconversion/Decimator.cpp
index 4c2dc4d..858f31c 100644
--- a/dsp/rateconversion/Decimator.cpp
+++ b/dsp/rateconversion/Decimator.cpp
@@ -16,6 +16,7 @@
 #include "Decimator.h"
 
 #include <iostream>
+#include <cstring>
 
 //////////////////////////////////////////////////////////////////////
 // Construction/Destruction
@@ -195,9 +196,7 @@ void Decimator::doAntiAlias(const float *src, double *dst, int length)
 void Decimator::process(const double *src, double *dst)
 {
     if (m_decFactor == 1) {
-        for (int i = 0; i < m_outputLength; i++ ) {
-            dst[i] = src[i];
-        }
+        memmove(dst, src, m_outputLength * sizeof(*dst));
         return;
     }
         
@@ -213,9 +212,7 @@ void Decimator::process(const double *src, double *dst)
 void Decimator::process(const float *src, float *dst)
 {
     if (m_decFactor == 1) {
-        for (int i = 0; i < m_outputLength; i++ ) {
-            dst[i] = src[i];
-        }
+        memmove(dst, src, m_outputLength * sizeof(*dst));
         return;
     }
 
-- 
2.43.0


From dc7ecf3503fd89bbe5a4cef54d7c9af6e50eba05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:31:00 +0000
Subject: [PATCH 33/33] fix: MathUtilities::round: wrong just below a half and
 for large odd integers

---
 maths/MathUtilities.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/maths/MathUtilities.cpp b/maths/MathUtilities.cpp
index a8ada2e..2580ca5 100644
--- a/maths/MathUtilities.cpp
+++ b/maths/MathUtilities.cpp
@@ -74,11 +74,12 @@ double MathUtilities::getAlphaNorm( const vector <double> &data, int alpha )
 
 double MathUtilities::round(double x)
 {
-    if (x < 0) {
-        return -floor(-x + 0.5);
-    } else {
-        return floor(x + 0.5);
+    // (adding 0.5 to x itself could be rounded up to the next integer)
+    double whole = floor(fabs(x));
+    if (fabs(x) - whole >= 0.5) {
+        whole += 1.0;
     }
+    return x < 0 ? -whole : whole;
 }
 
 double MathUtilities::median(const double *src, int len)
-- 
2.43.0

