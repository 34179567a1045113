From 15711359078c007c6da11a1ee352dce331bc294d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:39 +0000
Subject: [PATCH 001/139] fix: FindNewSizeWithPadding must never return less
 than the requested size

log() of a float rounds sizes just above a large power of two (16777217, ...) down
to the power of two, and the smaller size was returned.
---
 src/nrlib/fft/fft.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/nrlib/fft/fft.cpp b/src/nrlib/fft/fft.cpp
index 1f59986..53faaa4 100644
--- a/src/nrlib/fft/fft.cpp
+++ b/src/nrlib/fft/fft.cpp
@@ -56,10 +56,10 @@ NRLib::FindNewSizeWithPadding(size_t minSize, bool must_be_even) {
   if (must_be_even)
     minant2 = 1;
 
-  int maxant2 = static_cast<int>(ceil((double)log((float)(minSize)) / log(2.0f)));
-  int maxant3 = static_cast<int>(ceil((double)log((float)(minSize)) / log(3.0f)));
-  int maxant5 = static_cast<int>(ceil((double)log((float)(minSize)) / log(5.0f)));
-  int maxant7 = static_cast<int>(ceil((double)log((float)(minSize)) / log(7.0f)));
+  int maxant2 = static_cast<int>(ceil(log(static_cast<double>(minSize)) / log(2.0)));
+  int maxant3 = static_cast<int>(ceil(log(static_cast<double>(minSize)) / log(3.0)));
+  int maxant5 = static_cast<int>(ceil(log(static_cast<double>(minSize)) / log(5.0)));
+  int maxant7 = static_cast<int>(ceil(log(static_cast<double>(minSize)) / log(7.0)));
   int maxant11 = 0;
   int maxant13 = 0;
   size_t closestprod = static_cast<size_t>(pow(2.0f, maxant2));
-- 
2.43.0


From c920788f88706fc7e85e867e512b30298bdf0f5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:39 +0000
Subject: [PATCH 002/139] fix: FindNewSizeWithPadding(1, true) returned the odd
 size 1

---
 src/nrlib/fft/fft.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/nrlib/fft/fft.cpp b/src/nrlib/fft/fft.cpp
index 53faaa4..d87169a 100644
--- a/src/nrlib/fft/fft.cpp
+++ b/src/nrlib/fft/fft.cpp
@@ -62,6 +62,8 @@ NRLib::FindNewSizeWithPadding(size_t minSize, bool must_be_even) {
   int maxant7 = static_cast<int>(ceil(log(static_cast<double>(minSize)) / log(7.0)));
   int maxant11 = 0;
   int maxant13 = 0;
+  if (maxant2 < minant2)
+    maxant2 = minant2; // A grid of size 1 is not even
   size_t closestprod = static_cast<size_t>(pow(2.0f, maxant2));
 
   // kan forbedres ved aa trekke fra i endepunktene.i for lokkene
-- 
2.43.0


From 9c7497d8d590bfbfbeda8f46c99c0e438f755c56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:39 +0000
Subject: [PATCH 003/139] fix: a perp_range or depth_range of zero means
 main_range, as documented

A zero range gave a variogram with NaN correlations.
---
 src/gaussfft.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gaussfft.cpp b/src/gaussfft.cpp
index cdd7e2e..bf8a642 100644
--- a/src/gaussfft.cpp
+++ b/src/gaussfft.cpp
@@ -60,9 +60,9 @@ NRLib::Variogram * GaussFFT::CreateVariogram(const std::string & type,
                                              double              dip_angle,
                                              double              power)
 {
-  if (range_y < 0.0)
+  if (range_y <= 0.0)
     range_y = range_x;
-  if (range_z < 0.0)
+  if (range_z <= 0.0)
     range_z = range_x;
 
   azimuth_angle *= NRLib::Degree;
-- 
2.43.0


From bb2b610f263d878b7ced9150f67b2e08f01d581f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:58 +0000
Subject: [PATCH 004/139] fix: do not leak a RandomGenerator for every
 simulated 1D and 2D field

---
 src/nrlib/variogram/gaussianfield.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/nrlib/variogram/gaussianfield.cpp b/src/nrlib/variogram/gaussianfield.cpp
index 4eaea78..69789dd 100644
--- a/src/nrlib/variogram/gaussianfield.cpp
+++ b/src/nrlib/variogram/gaussianfield.cpp
@@ -198,10 +198,12 @@ void NRLib::Simulate2DGaussianField(const Variogram& variogram,
                                     // bool   user_defined_padding,
                                     Grid2D<double> & grid_out)
 {
+  RandomGenerator local_rg;
   RandomGenerator * rg = NULL;
   try {
     unsigned long seed = Random::GetStartSeed();
-    rg = new RandomGenerator(seed);
+    local_rg.Initialize(seed);
+    rg = &local_rg;
   }
   catch (std::exception) {
     // This will occur if NRLib::Random is not initilized. In this case,
@@ -279,8 +281,9 @@ void NRLib::Simulate2DGaussianField(const Variogram              & variogram,
   // This is done to be able to do multithreading
   //NRLib::RandomGenerator random;
  // random.Initialize(seed);
+  RandomGenerator local_rg;
   if(rg == NULL) {
-    rg = new RandomGenerator();
+    rg = &local_rg;
     rg->Initialize(NRLib::Random::DrawUint32());
   }
   for (int k = 0; k < n_fields; k++) {
@@ -318,8 +321,9 @@ NRLib::Simulate1DGaussianField(const Variogram       & variogram,
 
   std::vector<double> cov = FFTCovGrid1D(variogram, static_cast<int>(nxp), dx, scaling_x).GetCov();
 
+  RandomGenerator local_rg;
   if(rg == NULL) {
-    rg = new RandomGenerator();
+    rg = &local_rg;
     rg->Initialize(NRLib::Random::DrawUint32());
   }
   std::vector<double> noise(nxp);
-- 
2.43.0


From 8b64a50b8a6cb53204323cdddb3fbdd2af9d6dfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:11 +0000
Subject: [PATCH 005/139] fix: 'from gaussianfft import *' failed on names that
 do not exist

---
 gaussianfft/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gaussianfft/__init__.py b/gaussianfft/__init__.py
index 89d8c34..d5dae06 100644
--- a/gaussianfft/__init__.py
+++ b/gaussianfft/__init__.py
@@ -29,6 +29,6 @@ def variogram(type, *args, **kwargs):
 
 __all__ = [
     'variogram', 'simulate', 'seed', 'advanced', 'simulation_size',
-    'quote', 'Variogram', 'VariogramType', 'util', 'SizeTVector', 'DoubleVector',
+    'quote', 'Variogram', 'VariogramType', 'util',
     '__version__',
 ]
-- 
2.43.0


From 2188690930e232509850d90449a6f61836cb8d9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:07:10 +0000
Subject: [PATCH 006/139] fix: CovGrid2D::GetRangeY ignored correlation towards
 negative y

Only lags (i>=0, j>0) counted, so a variogram whose correlation runs
towards (+x, -y) got a too short range in y.
---
 src/nrlib/variogram/covgrid2d.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/nrlib/variogram/covgrid2d.cpp b/src/nrlib/variogram/covgrid2d.cpp
index 5003c24..92aec4e 100644
--- a/src/nrlib/variogram/covgrid2d.cpp
+++ b/src/nrlib/variogram/covgrid2d.cpp
@@ -93,8 +93,8 @@ CovGrid2D::GetRangeY() const
     for(int j=-ny_;j<ny_;j++) {
       int index = i*2*ny_ + ny_ + j;
       if (cov_[index] >= 0.05) {
-        if (j*dy_ > ry)
-          ry = j*dy_;
+        if (abs(j)*dy_ > ry)
+          ry = abs(j)*dy_;
       }
     }
   }
-- 
2.43.0


From 3c3a14d4a418f1426a490a4f7cfc3e144fef767d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:09:01 +0000
Subject: [PATCH 007/139] fix: an unreadable seed file overwrote the start seed
 with zero

Random::Initialize(filename) extracted directly into start_seed_, which
operator>> sets to 0 on failure, so after the exception GetStartSeed
reported 0 while the stream in use was still that of the old seed.
---
 src/nrlib/random/random.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/nrlib/random/random.cpp b/src/nrlib/random/random.cpp
index d00de76..44cdc9a 100644
--- a/src/nrlib/random/random.cpp
+++ b/src/nrlib/random/random.cpp
@@ -52,9 +52,11 @@ void Random::Initialize(const std::string& filename) {
   if (!file) {
     throw Exception("Error opening seed file " + filename + "\n");
   }
-  if (!(file >> start_seed_)) {
+  unsigned long seed;
+  if (!(file >> seed)) {
     throw Exception("Error reading seed from seed file " + filename + "\n");
   }
+  start_seed_ = seed;
   seed_file_ = filename;
   use_seed_file_ = true;
   is_initialized_ = true;
-- 
2.43.0


From 84e2a07214602db5286ed598dec08a38d1a99c27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:12:22 +0000
Subject: [PATCH 008/139] fix: EmpiricalVariogram reported bin edges as bin
 midpoints

find_midpoints added a whole bin width to the left edges, so estimates
were paired with (and compared to the true variogram at) distances half
a bin too long.
---
 gaussianfft/util/empirical_variogram.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gaussianfft/util/empirical_variogram.py b/gaussianfft/util/empirical_variogram.py
index 7fe6230..ca32798 100644
--- a/gaussianfft/util/empirical_variogram.py
+++ b/gaussianfft/util/empirical_variogram.py
@@ -136,7 +136,7 @@ class EmpiricalVariogram:
     def find_midpoints(self, resolution):
         s = self.simulate()
         means, edges = self.binned_variogram_statistics(resolution, s)
-        return edges[:-1] + np.diff(edges)[0]
+        return edges[:-1] + np.diff(edges)[0] / 2.0
 
     def simulate(self):
         s = gaussianfft.advanced.simulate(self.v,
-- 
2.43.0


From 12483a10d2a0c11be5dc370ebd2201d0c4e0a7e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:12:22 +0000
Subject: [PATCH 009/139] fix: PaddingAnalyzer(seed=0) ran with the default
 seed

---
 gaussianfft/util/padding_analyzer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gaussianfft/util/padding_analyzer.py b/gaussianfft/util/padding_analyzer.py
index b1679d9..e8cd41a 100644
--- a/gaussianfft/util/padding_analyzer.py
+++ b/gaussianfft/util/padding_analyzer.py
@@ -26,7 +26,7 @@ class PaddingAnalyzer:
         n = n or PaddingAnalyzerDefaults.n
         drf = drf or PaddingAnalyzerDefaults.DRF
         L = L or PaddingAnalyzerDefaults.L
-        seed = seed or PaddingAnalyzerDefaults.seed
+        seed = PaddingAnalyzerDefaults.seed if seed is None else seed
         nmax = nmax or PaddingAnalyzerDefaults.nmax
         ndims = ndims or PaddingAnalyzerDefaults.ndims
 
-- 
2.43.0


From 943fdfe296181e1d11a0e785c371438ab8411fa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:20:10 +0000
Subject: [PATCH 010/139] fix: SplitUniform::Pdf was zero on the upper half of
 the support

---
 src/nrlib/random/splituniform.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nrlib/random/splituniform.hpp b/src/nrlib/random/splituniform.hpp
index 2e4b393..df15b7a 100644
--- a/src/nrlib/random/splituniform.hpp
+++ b/src/nrlib/random/splituniform.hpp
@@ -69,7 +69,7 @@ double SplitUniform::Pdf(double x) const {
   if (x >= min_val_ && x < mean_val_) {
     p = 0.5 / (mean_val_ - min_val_);
   }
-  else if (x > mean_val_ && x > max_val_) {
+  else if (x > mean_val_ && x <= max_val_) {
     p = 0.5 / (max_val_ - mean_val_);
   }
   else if (x == mean_val_) {
-- 
2.43.0


From e9111204b7f55ae5c70910d80aa86e3b6b4f2cce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:20:10 +0000
Subject: [PATCH 011/139] fix: LogNormal drew with the parameters before the
 last SetParameters

The default constructor also left sigma at zero for Pdf, Cdf and Quantile while
drawing, expectation and standard deviation used one.
---
 src/nrlib/random/lognormal.cpp | 2 +-
 src/nrlib/random/lognormal.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/nrlib/random/lognormal.cpp b/src/nrlib/random/lognormal.cpp
index 619df76..2c27adf 100644
--- a/src/nrlib/random/lognormal.cpp
+++ b/src/nrlib/random/lognormal.cpp
@@ -31,7 +31,7 @@ namespace NRLib {
 LogNormal::LogNormal()
   : normal_(Normal()),
     mu_(0.0),
-    sigma_(0.0)
+    sigma_(1.0)
 {
   exp_ = std::exp(0.5);
   std_dev_ = std::sqrt((std::exp(1.0) - 1.0) * std::exp(1.0));
diff --git a/src/nrlib/random/lognormal.hpp b/src/nrlib/random/lognormal.hpp
index e574d2f..55e34ae 100644
--- a/src/nrlib/random/lognormal.hpp
+++ b/src/nrlib/random/lognormal.hpp
@@ -62,7 +62,7 @@ void LogNormal::SetParameters(double mu, double sigma)
 {
   // If mean and std. dev. are in the log normal distribution, we calculate the corresponding
   // mu and sigma in the normal distribution
-  normal_.SetParameters(mu_, sigma_);
+  normal_.SetParameters(mu, sigma);
   mu_ = mu;
   sigma_ = sigma;
   exp_ = std::exp(mu_ + 0.5 * sigma_ * sigma_);
-- 
2.43.0


From f25436c287581c5ebb1b4c2ffe7ffaf97ea99727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:20:10 +0000
Subject: [PATCH 012/139] fix: Poisson::Pdf overflowed the factorial and
 Poisson::Cdf was not the distribution function

Cdf is the upper regularised incomplete gamma function Q(x+1, lambda); with the old
values Quantile did not terminate.
---
 src/nrlib/random/poisson.cpp | 21 ++++++---------------
 1 file changed, 6 insertions(+), 15 deletions(-)

diff --git a/src/nrlib/random/poisson.cpp b/src/nrlib/random/poisson.cpp
index bae965d..2a7b992 100644
--- a/src/nrlib/random/poisson.cpp
+++ b/src/nrlib/random/poisson.cpp
@@ -66,27 +66,18 @@ namespace NRLib {
 
   double Poisson::Pdf(int x) const
   {
-    int x_fac = 1;
-    int i = 1;
-    while (i < x) {
-      i++;
-      x_fac = x_fac * i;
-    }
-    double pdf = std::exp(x*std::log(lambda_)-lambda_)/x_fac;
+    if (x < 0)
+      return 0.0;
+    double pdf = std::exp(x*std::log(lambda_) - lambda_ - NRLib::gammln(x + 1.0));
     return pdf;
   }
 
 
   double Poisson::Cdf(int x) const
   {
-    int x_fac = 1;
-    int i = 1;
-    while (i < x) {
-      i++;
-      x_fac = x_fac * i;
-    }
-    double x1 = x + 1.0;
-    double cdf = NRLib::gammp(x1, lambda_)/x_fac;
+    if (x < 0)
+      return 0.0;
+    double cdf = 1.0 - NRLib::gammp(x + 1.0, lambda_);
     return cdf;
 
   }
-- 
2.43.0


From afa255d2e9dd0288332ff2fcb4f48a2930628374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:20:10 +0000
Subject: [PATCH 013/139] fix: Binomial::Quantile returned n-1 for
 probabilities at or above the tabulated Cdf(n)

---
 src/nrlib/random/binomial.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nrlib/random/binomial.cpp b/src/nrlib/random/binomial.cpp
index 17df430..6a01bc6 100644
--- a/src/nrlib/random/binomial.cpp
+++ b/src/nrlib/random/binomial.cpp
@@ -103,7 +103,7 @@ int Binomial::Quantile(double q) const
   if (high == low)
     return low;
   else
-    if (cdf_[high] > q && cdf_[low] <= q)
+    if (cdf_[low] <= q)
       return high;
     else
       return low;
-- 
2.43.0


From b7cd0395d815f511ed3d6c4dedead809e4a11fc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:20:10 +0000
Subject: [PATCH 014/139] fix: GeneralDiscrete::Quantile read past the
 histogram when rounding left its sum below p

---
 src/nrlib/random/generaldiscrete.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/nrlib/random/generaldiscrete.hpp b/src/nrlib/random/generaldiscrete.hpp
index fac145b..69092e8 100644
--- a/src/nrlib/random/generaldiscrete.hpp
+++ b/src/nrlib/random/generaldiscrete.hpp
@@ -54,8 +54,9 @@ private:
 
 int GeneralDiscrete::Quantile(double p) const {
   assert(p >= 0.0 && p <= 1.0);
-  int i = 0;
-  while (cum_hist_[i] < p) {
+  int i    = 0;
+  int last = static_cast<int>(cum_hist_.size()) - 1;
+  while (i < last && cum_hist_[i] < p) {
     i++;
   }
   return(i);
-- 
2.43.0


From 8e8b7c7cac6c431422f703f86f38075cfa88f99c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:20:10 +0000
Subject: [PATCH 015/139] fix: Normal::PhiInverse returned ten standard
 deviations for probabilities within 1e-6 of 0 or 1

---
 src/nrlib/random/normal.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/nrlib/random/normal.cpp b/src/nrlib/random/normal.cpp
index fbc7903..07807c2 100644
--- a/src/nrlib/random/normal.cpp
+++ b/src/nrlib/random/normal.cpp
@@ -78,10 +78,10 @@ Normal::PhiInverse(double y) const
   else
     return mean_;
 
-  if (IsEqual(Cdf(upper_limit),y))
+  if (Cdf(upper_limit) == y)
     return upper_limit;
 
-  if (IsEqual(Cdf(lower_limit),y))
+  if (Cdf(lower_limit) == y)
     return lower_limit;
 
   return RootPHI(lower_limit, upper_limit, 1.0e-10, 1000, y);
@@ -127,9 +127,9 @@ double Normal::RootPHI(double lower,double upper,double xacc,int MaxIt, double y
   PHIMinusyAndphi(lower, y, fl, df);
   PHIMinusyAndphi(upper, y, fh, df);
 
-  if (IsZero(fl))
+  if (fl == 0.0)
     return lower;
-  else if (IsZero(fh))
+  else if (fh == 0.0)
     return upper;
 
   if (fl*fh >= 0.0)
-- 
2.43.0


From 2ad4f390d9191c9f414acbe83bc739f5849beee8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:20:26 +0000
Subject: [PATCH 016/139] fix: gammp(a, x) was 0 instead of 1 where the tail
 integral underflows (a >= 100, x far above a)

---
 src/nrlib/random/gamma.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/nrlib/random/gamma.cpp b/src/nrlib/random/gamma.cpp
index 8d5f57d..840060e 100644
--- a/src/nrlib/random/gamma.cpp
+++ b/src/nrlib/random/gamma.cpp
@@ -184,14 +184,14 @@ namespace NRLib {
 
     if( psig == 1 )
     {
-      if (ans > 0 )
+      if (x > a1)
         return 1-ans;
       else
         return -ans;
     }
     else
     {
-      if (ans >= 0)
+      if (x > a1)
         return ans;
       else
         return 1+ans;
-- 
2.43.0


From cc31f95141dc26e0b712a195013df02febdde946 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:22:01 +0000
Subject: [PATCH 017/139] fix: Grid4D::GetIJKL was not the inverse of GetIndex
 when there is more than one l-layer

---
 src/nrlib/grid/grid4d.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/nrlib/grid/grid4d.hpp b/src/nrlib/grid/grid4d.hpp
index ad740f7..7ebee6e 100644
--- a/src/nrlib/grid/grid4d.hpp
+++ b/src/nrlib/grid/grid4d.hpp
@@ -161,8 +161,8 @@ void Grid4D<A>::GetIJKL(size_t index, size_t &i, size_t &j, size_t &k, size_t &l
 
   i = index % ni_;
   j = (index-i)/ni_ % nj_;
-  k = (index - j*ni_ - i)/ni_/nj_;
-  l = (index - k*ni_*nj_)/ni_/nj_/nk_; //?
+  k = (index - j*ni_ - i)/ni_/nj_ % nk_;
+  l = index/ni_/nj_/nk_;
 }
 
 template<class A>
-- 
2.43.0


From 2fa691f2ce5c3037346a80b518472e0c14b7b803 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:22:01 +0000
Subject: [PATCH 018/139] fix: Grid5D did not compile and GetIJKLM read its own
 output argument

---
 src/nrlib/grid/grid5d.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/nrlib/grid/grid5d.hpp b/src/nrlib/grid/grid5d.hpp
index 527f009..02c3f12 100644
--- a/src/nrlib/grid/grid5d.hpp
+++ b/src/nrlib/grid/grid5d.hpp
@@ -112,7 +112,7 @@ void Grid5D<A>::Resize(size_t ni, size_t nj, size_t nk, size_t nl, size_t nm, co
   nj_ = nj;
   nk_ = nk;
   nl_ = nl;
-  nm_ = nm
+  nm_ = nm;
 
   data_.resize(0); //To avoid copying of elements
   data_.resize(ni_ * nj_ * nk_ * nl * nm,  val);
@@ -166,9 +166,9 @@ void Grid5D<A>::GetIJKLM(size_t index, size_t &i, size_t &j, size_t &k, size_t &
 
   i = index % ni_;
   j = (index-i)/ni_ % nj_;
-  k = (index - j*ni_ - i)/ni_/nj_;
-  l = (index - k*ni_*nj_)/ni_/nj_/nk_; //?
-  m = (index - m*ni_*nj_*nk_)/ni_/nj_/nk_/nl_; //?
+  k = (index - j*ni_ - i)/ni_/nj_ % nk_;
+  l = index/ni_/nj_/nk_ % nl_;
+  m = index/ni_/nj_/nk_/nl_;
 }
 
 template<class A>
-- 
2.43.0


From 03fdb3acd97933d39e790395c1b28b98f1345e52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:22:01 +0000
Subject: [PATCH 019/139] fix: Grid2DGeneral::Swap left the index ranges with
 the wrong grid

---
 src/nrlib/grid/grid2dgeneral.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/nrlib/grid/grid2dgeneral.hpp b/src/nrlib/grid/grid2dgeneral.hpp
index 3a0d13a..746c697 100644
--- a/src/nrlib/grid/grid2dgeneral.hpp
+++ b/src/nrlib/grid/grid2dgeneral.hpp
@@ -197,6 +197,10 @@ void Grid2DGeneral<A>::Swap(NRLib::Grid2DGeneral<A> &other)
 {
   std::swap(ni_, other.ni_);
   std::swap(nj_, other.nj_);
+  std::swap(i_min_, other.i_min_);
+  std::swap(i_max_, other.i_max_);
+  std::swap(j_min_, other.j_min_);
+  std::swap(j_max_, other.j_max_);
   data_.swap(other.data_);
 }
 
-- 
2.43.0


From 9976fa3d0544228f4419af6af1b8d96f1cb0ded0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:33:15 +0000
Subject: [PATCH 020/139] fix: Substitute replaced as many characters as the
 replacement has, and never ended if it contains the text replaced

---
 src/nrlib/iotools/stringtools.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/nrlib/iotools/stringtools.cpp b/src/nrlib/iotools/stringtools.cpp
index e810b22..3e50ad2 100644
--- a/src/nrlib/iotools/stringtools.cpp
+++ b/src/nrlib/iotools/stringtools.cpp
@@ -144,11 +144,12 @@ NRLib::Substitute(std::string       & text,
                    const std::string & out,
                    const std::string & in)
 {
-  std::string::size_type len = in.size();
+  if (out.empty())
+    return;
   std::string::size_type pos = text.find(out);
   while (pos != std::string::npos) {
-    text.replace(pos, len, in);
-    pos = text.find(out);
+    text.replace(pos, out.size(), in);
+    pos = text.find(out, pos + in.size());
   }
 }
 
-- 
2.43.0


From fef017557cc46aa61835212ac5658b3c8a2bd0f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:33:15 +0000
Subject: [PATCH 021/139] fix: GetQuotedTokens missed a quotation mark at the
 start of the string and looped forever without a closing one

---
 src/nrlib/iotools/stringtools.cpp | 24 +++++++-----------------
 1 file changed, 7 insertions(+), 17 deletions(-)

diff --git a/src/nrlib/iotools/stringtools.cpp b/src/nrlib/iotools/stringtools.cpp
index 3e50ad2..d5bf88f 100644
--- a/src/nrlib/iotools/stringtools.cpp
+++ b/src/nrlib/iotools/stringtools.cpp
@@ -117,24 +117,14 @@ NRLib::GetQuotedTokens(const std::string& s)
   std::vector<std::string> v;
   std::istringstream iss(s);
   std::string tmp;
-  std::string char_tmp;
-  size_t quotation_last_position = 0;
-  while(iss >> tmp) {
-    char_tmp = tmp.substr(0, 1);
-    if (char_tmp != "\"")
-      v.push_back(tmp);
-    else{
-      quotation_last_position = s.find_first_of("\"", quotation_last_position + 1);
-      size_t first_quotation_mark = quotation_last_position;
-      quotation_last_position = s.find_first_of("\"", quotation_last_position + 1);
-      size_t second_quotation_mark = quotation_last_position;
-      std::string quotation = s.substr(first_quotation_mark + 1, (second_quotation_mark - first_quotation_mark - 1));
-      v.push_back(quotation);
-      if (char_tmp == tmp)
-        iss >> tmp;
-      while (tmp.substr((tmp.size() - 1), 1) != "\"")
-        iss >> tmp;
+  while (iss >> std::ws && iss.peek() != std::char_traits<char>::eof()) {
+    if (iss.peek() == '"') {
+      iss.get();
+      std::getline(iss, tmp, '"');
     }
+    else
+      iss >> tmp;
+    v.push_back(tmp);
   }
   return v;
 }
-- 
2.43.0


From 975c48c748e180272e71caeffe1d8fc6b33ced40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:33:15 +0000
Subject: [PATCH 022/139] fix: ReadAsciiArrayFast raised EndOfFile when the
 last value is not followed by whitespace

---
 src/nrlib/iotools/fileio.hpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/nrlib/iotools/fileio.hpp b/src/nrlib/iotools/fileio.hpp
index 2d1f490..4da0900 100644
--- a/src/nrlib/iotools/fileio.hpp
+++ b/src/nrlib/iotools/fileio.hpp
@@ -516,10 +516,9 @@ I NRLib::ReadAsciiArrayFast(std::istream& stream, I begin, size_t n)
   for (size_t i = 0; i < n; ++i) {
     stream >> *begin;
     ++begin;
-    if ( stream.eof() ) {
-      throw EndOfFile();
-    }
     if ( stream.fail() ) {
+      if ( stream.eof() )
+        throw EndOfFile();
       stream.clear();
       std::string nextToken;
       stream >> nextToken;
-- 
2.43.0


From ee4f070fd8657f791a1b2b8ff9f4108e327efdb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:33:15 +0000
Subject: [PATCH 023/139] fix: ParseAsciiArrayFast started again at the first
 value when the last of too few values ends the string

---
 src/nrlib/iotools/stringtools.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/nrlib/iotools/stringtools.hpp b/src/nrlib/iotools/stringtools.hpp
index f8a0e8c..a2e28fc 100644
--- a/src/nrlib/iotools/stringtools.hpp
+++ b/src/nrlib/iotools/stringtools.hpp
@@ -194,7 +194,7 @@ I NRLib::ParseAsciiArrayFast(std::string& s, I begin, size_t n)
   std::string whitespace = " \n\r\f\t";
 
   size_t pos = s.find_first_not_of(whitespace, 0);
-  size_t next_pos = s.find_first_of(whitespace, pos+1);
+  size_t next_pos = (pos == s.npos) ? s.npos : s.find_first_of(whitespace, pos + 1);
   size_t i = 0;
   while (i < n && pos != s.npos) {
     if (next_pos != s.npos) {
@@ -202,8 +202,8 @@ I NRLib::ParseAsciiArrayFast(std::string& s, I begin, size_t n)
     }
     *begin = NRLibPrivate::UnsafeParser<T>::ParseType(&s[pos]);
     ++begin;
-    pos = s.find_first_not_of(whitespace, next_pos + 1);
-    next_pos = s.find_first_of(whitespace, pos + 1);
+    pos = (next_pos == s.npos) ? s.npos : s.find_first_not_of(whitespace, next_pos + 1);
+    next_pos = (pos == s.npos) ? s.npos : s.find_first_of(whitespace, pos + 1);
     ++i;
   }
 
-- 
2.43.0


From 047320c990630814d310e5893a0f0175b16f2446 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:33:15 +0000
Subject: [PATCH 024/139] fix: CopyFile with overwrite deleted the destination
 when the source is missing or is the same file

---
 src/nrlib/iotools/fileio.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/nrlib/iotools/fileio.cpp b/src/nrlib/iotools/fileio.cpp
index f751ff5..60044e2 100644
--- a/src/nrlib/iotools/fileio.cpp
+++ b/src/nrlib/iotools/fileio.cpp
@@ -167,11 +167,15 @@ void NRLib::CopyFile(const std::string & from_path,
                      const std::string & to_path,
                      bool                allow_overwrite)
 {
-  if (allow_overwrite)
-    RemoveFile(to_path);
-  else {
-    if (boost::filesystem::exists(to_path))
+  if (!boost::filesystem::exists(from_path))
+    throw IOError("Failed to open " + from_path + " for reading: File does not exist.");
+
+  if (boost::filesystem::exists(to_path)) {
+    if (!allow_overwrite)
       throw IOError("Failed to open " + to_path + " for writing: The file already exists.");
+    if (boost::filesystem::equivalent(from_path, to_path))
+      return;
+    RemoveFile(to_path);
   }
 
   boost::filesystem::copy_file(from_path, to_path);
-- 
2.43.0


From 5a8067920562cfe1ba2597824f74ac988447583b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:33:15 +0000
Subject: [PATCH 025/139] fix: Deserialize2dVector compiled for size_t only

---
 src/nrlib/iotools/serialize.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nrlib/iotools/serialize.hpp b/src/nrlib/iotools/serialize.hpp
index 2f06a68..9bcc514 100644
--- a/src/nrlib/iotools/serialize.hpp
+++ b/src/nrlib/iotools/serialize.hpp
@@ -98,7 +98,7 @@ void NRLib::Deserialize2dVector(std::istream& istream,
     if (line[0] == end_char)
       break;
     std::vector<std::string> tokens = GetTokens(line);
-    vec.push_back(std::vector<size_t>());
+    vec.push_back(std::vector<T>());
     for (size_t i = 0; i < tokens.size(); ++i) {
       vec[vec.size() - 1].push_back(NRLib::ParseType<T>(tokens[i]));
     }
-- 
2.43.0


From f66a59cdb5d176e9935ab13b2f9e9910fe339453 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:33:15 +0000
Subject: [PATCH 026/139] fix: LogFormatted overflowed its buffer for messages
 of 5000 (1000 with a phase) characters or more

---
 src/nrlib/iotools/logkit.cpp | 30 ++++++++++++++++++++++++------
 1 file changed, 24 insertions(+), 6 deletions(-)

diff --git a/src/nrlib/iotools/logkit.cpp b/src/nrlib/iotools/logkit.cpp
index 8199a79..96f223b 100644
--- a/src/nrlib/iotools/logkit.cpp
+++ b/src/nrlib/iotools/logkit.cpp
@@ -21,6 +21,7 @@
 
 #include <algorithm>
 #include <cstdarg>
+#include <cstdio>
 #include <iostream>
 
 #include "fileio.hpp"
@@ -157,25 +158,42 @@ LogKit::LogMessage(int level, int phase, const std::string & message) {
 }
 
 
+namespace {
+
+/// The whole formatted message, however long it is.
+std::string
+FormatMessage(const char* format, va_list ap) {
+  va_list ap2;
+  va_copy(ap2, ap);
+  int n = vsnprintf(NULL, 0, format, ap2);
+  va_end(ap2);
+  if (n < 0)
+    return "";
+  std::vector<char> message(n + 1);
+  vsnprintf(&message[0], message.size(), format, ap);
+  return std::string(&message[0], n);
+}
+
+} // namespace
+
+
 void
 LogKit::LogFormatted(int level, const char* format, ...) {
   va_list ap;
-  char message[5000];
   va_start(ap, format);
-  vsprintf(message, format, ap);
+  std::string message = FormatMessage(format, ap);
   va_end(ap);
-  LogMessage(level, std::string(message));
+  LogMessage(level, message);
 }
 
 
 void
 LogKit::LogFormatted(int level, int phase, const char* format, ...) {
   va_list ap;
-  char message[1000];
   va_start(ap, format);
-  vsprintf(message, format, ap);
+  std::string message = FormatMessage(format, ap);
   va_end(ap);
-  LogMessage(level, phase, std::string(message));
+  LogMessage(level, phase, message);
 }
 
 
-- 
2.43.0


From e4cf73f33a593178d91acda7cd43f18ac3660e82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:34:14 +0000
Subject: [PATCH 027/139] fix: TabularFile::CheckFile read the first token of
 an empty list for a blank file

---
 src/nrlib/iotools/tabularfile.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/nrlib/iotools/tabularfile.cpp b/src/nrlib/iotools/tabularfile.cpp
index f19c192..c95c1cf 100644
--- a/src/nrlib/iotools/tabularfile.cpp
+++ b/src/nrlib/iotools/tabularfile.cpp
@@ -67,6 +67,8 @@ bool TabularFile::CheckFile(const std::string & filename,
   last_line = FindLastNonEmptyLine(in_file0);
   std::vector<std::string> tokens = GetTokens(last_line);
   read_last_line = true;
+  if (tokens.empty())
+    return false;
   if (!IsType<double>(tokens[0])) {
     read_last_line = false;
   }
-- 
2.43.0


From 42a154d3acd4c601a723b7a4207f397ee284e09e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:38:16 +0000
Subject: [PATCH 028/139] fix: PrependDir changed an empty string and complete
 paths starting with /

---
 src/nrlib/iotools/stringtools.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/nrlib/iotools/stringtools.cpp b/src/nrlib/iotools/stringtools.cpp
index d5bf88f..24c2403 100644
--- a/src/nrlib/iotools/stringtools.cpp
+++ b/src/nrlib/iotools/stringtools.cpp
@@ -67,6 +67,9 @@ std::string
 NRLib::PrependDir(const std::string& prefix,
                    const std::string& str)
 {
+  if (prefix.empty() || str.empty() || str[0] == '/')
+    return str;
+
   boost::filesystem::path path(prefix);
   path /= str;
   return path.string();
-- 
2.43.0


From 76d2fb395b0a5b83def8365ce37313dad05efab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:47:10 +0000
Subject: [PATCH 029/139] fix: Polygon::IsCounterclockwise left out the closing
 edge

---
 src/nrlib/geometry/polygon.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/nrlib/geometry/polygon.cpp b/src/nrlib/geometry/polygon.cpp
index fd65aa7..f157cc2 100644
--- a/src/nrlib/geometry/polygon.cpp
+++ b/src/nrlib/geometry/polygon.cpp
@@ -93,8 +93,9 @@ bool Polygon::IsInsidePolygonXY(double x, double y)  const
 bool Polygon::IsCounterclockwise()
 {
   double doublearea=0;
-  for (size_t i=0; i<(polygon_points_.size()-1) ;i++) {
-    doublearea+=polygon_points_[i].x*polygon_points_[i+1].y-polygon_points_[i].y*polygon_points_[i+1].x;
+  for (size_t i=0; i<polygon_points_.size() ;i++) {
+    size_t next = (i+1 < polygon_points_.size()) ? i+1 : 0; // The polygon is closed.
+    doublearea+=polygon_points_[i].x*polygon_points_[next].y-polygon_points_[i].y*polygon_points_[next].x;
   }
   return (doublearea>=0);
 }
-- 
2.43.0


From a546705bda95cf626648aba301f3eaa8f0a76743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:47:10 +0000
Subject: [PATCH 030/139] fix: Polygon::GetCircumferenceXY left out the last
 but one edge

---
 src/nrlib/geometry/polygon.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nrlib/geometry/polygon.cpp b/src/nrlib/geometry/polygon.cpp
index f157cc2..6641061 100644
--- a/src/nrlib/geometry/polygon.cpp
+++ b/src/nrlib/geometry/polygon.cpp
@@ -340,7 +340,7 @@ Polygon::GetCircumferenceXY() const
   size_t poly_size = poly.GetSize();
   double poly_circ = (poly[poly_size-1] - poly[0]).Norm();
 
-  for (size_t i = 0; i < poly_size - 2; i++){
+  for (size_t i = 0; i < poly_size - 1; i++){
     poly_circ += (poly[i+1] - poly[i]).Norm();
   }
   return poly_circ;
-- 
2.43.0


From 4c1d88decf96a613f56837be72c3baeab1be9fd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:47:10 +0000
Subject: [PATCH 031/139] fix: Line::FindDistanceAndSide gave the wrong side
 beyond the end of the line

---
 src/nrlib/geometry/line.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nrlib/geometry/line.cpp b/src/nrlib/geometry/line.cpp
index 24aa2f8..1523a5f 100644
--- a/src/nrlib/geometry/line.cpp
+++ b/src/nrlib/geometry/line.cpp
@@ -97,7 +97,7 @@ double Line::FindDistanceAndSide(const Point& p_in, bool& right_side) const
 {
   Point  proj_pt   = FindProjection(p_in);
   Point  side_vec  = p_in - proj_pt;
-  Point  line_vec  = p2_  - proj_pt;
+  Point  line_vec  = p2_  - p1_;
   Point  cross     = side_vec.Cross(line_vec);
   if (cross.z >= 0) //true also if it is exact on line
     right_side = true;
-- 
2.43.0


From 7fc1df788012368bec25a46b3c28318ba775447e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:47:10 +0000
Subject: [PATCH 032/139] fix: Line::IsParallel was never true with its default
 tolerance

---
 src/nrlib/geometry/line.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nrlib/geometry/line.cpp b/src/nrlib/geometry/line.cpp
index 1523a5f..36b2a4d 100644
--- a/src/nrlib/geometry/line.cpp
+++ b/src/nrlib/geometry/line.cpp
@@ -144,7 +144,7 @@ bool Line::IsPointOnLine(const Point& p_in, double min_in) const
 
 bool Line::IsParallel(const Line& line_in, double min_in) const
 {
-  if (Cross(GetDir(), line_in.GetDir()).Norm() < min_in) // true -> parallel
+  if (Cross(GetDir(), line_in.GetDir()).Norm() <= min_in) // true -> parallel
     return true;
   else
     return false;
-- 
2.43.0


From 930a1a21e2a6ab2fe6a7460fb490040c6c247894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:47:10 +0000
Subject: [PATCH 033/139] fix: Line::FindDistance to a segment of zero length
 was the distance from the first point

---
 src/nrlib/geometry/line.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/nrlib/geometry/line.cpp b/src/nrlib/geometry/line.cpp
index 36b2a4d..63ed4d7 100644
--- a/src/nrlib/geometry/line.cpp
+++ b/src/nrlib/geometry/line.cpp
@@ -166,6 +166,13 @@ double Line::FindDistance(const Line   & line_in,
   double d  = Dot(u, w);
   double e  = Dot(v, w);
   double dd = a*c - b*b;   // always > 0
+
+  if (c == 0.0) { // line_in is a single point.
+    in_line_point   = line_in.GetPt1();
+    this_line_point = FindProjection(in_line_point);
+    return Norm(this_line_point - in_line_point);
+  }
+
   double sc, sn, sd = dd;   // sc = sn / sd
   double tc, tn, td = dd;   // sc = sn / sd
 
-- 
2.43.0


From 52792af2cf92e117ba5ccbbd256dfafad8783e71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:47:10 +0000
Subject: [PATCH 034/139] fix: Point::GetAngle was NaN for parallel vectors
 when rounding gave a cosine beyond 1

---
 src/nrlib/geometry/point.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nrlib/geometry/point.cpp b/src/nrlib/geometry/point.cpp
index c884158..32c775c 100644
--- a/src/nrlib/geometry/point.cpp
+++ b/src/nrlib/geometry/point.cpp
@@ -63,7 +63,7 @@ double Point::GetAngle(const Point& p_in) const
   double norm = Norm()*p_in.Norm();
   if (norm > 0.0) {
     loc = this->Dot(p_in) / norm;
-    return std::acos(loc);
+    return std::acos(std::max(-1.0, std::min(1.0, loc))); // Rounding may give values outside [-1, 1].
   }
   else
     return 0.0;   // returning unvalid value
-- 
2.43.0


From 874129c874ab025e265c9c0ad399d0037d1b49dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:47:10 +0000
Subject: [PATCH 035/139] fix: Box::FindIntersections returned a point on an
 edge or corner once for each side

---
 src/nrlib/geometry/box.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/nrlib/geometry/box.cpp b/src/nrlib/geometry/box.cpp
index 857a2de..750c287 100644
--- a/src/nrlib/geometry/box.cpp
+++ b/src/nrlib/geometry/box.cpp
@@ -107,6 +107,15 @@ std::vector<Point> Box::FindIntersections(const NRLib::Line& line) const
     }
   }
 
+  // A line through an edge or a corner meets several sides in the same point.
+  double tol = 1e-9 * (lengthx_ + lengthy_ + lengthz_);
+  for (size_t i = 0; i < intersections.size(); ++i) {
+    for (size_t j = intersections.size() - 1; j > i; --j) {
+      if (intersections[i].GetDistance(intersections[j]) <= tol)
+        intersections.erase(intersections.begin() + j);
+    }
+  }
+
   assert(intersections.size() <= 2);
 
   // Prevent numerical instabilities:
-- 
2.43.0


From 65b933d0a5a56dc30d7eda52cc9a35cf6164c0e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:47:10 +0000
Subject: [PATCH 036/139] fix: spline interpolation read past its tables for
 two input points

---
 src/nrlib/geometry/interpolation.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/nrlib/geometry/interpolation.cpp b/src/nrlib/geometry/interpolation.cpp
index def427d..933d26d 100644
--- a/src/nrlib/geometry/interpolation.cpp
+++ b/src/nrlib/geometry/interpolation.cpp
@@ -124,8 +124,10 @@ std::vector<double> Interpolation::Spline1D(const std::vector<double> &x_in,
 
   std::vector<double> u(n_in, 0.0);
   std::vector<double> v(n_in, 0.0);
-  u[1] = 2.0*(h[0] + h[1]);
-  v[1] = b[1] - b[0];
+  if (n_in > 2) {
+    u[1] = 2.0*(h[0] + h[1]);
+    v[1] = b[1] - b[0];
+  }
   for (size_t i = 2; i < n_in - 1; ++i) {
     u[i] = 2.0*(h[i] + h[i-1]) - h[i-1]*h[i-1]/u[i-1];
     v[i] = b[i] - b[i-1] - h[i-1]*v[i-1]/u[i-1];
-- 
2.43.0


From 7e0f3ae9eb07a5e959524dceb8bab41cb9ef327e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:52:45 +0000
Subject: [PATCH 037/139] fix: Triangle::FindNearestPoint only looked at the
 edges when the line ends before the triangle

---
 src/nrlib/geometry/triangle.cpp | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/nrlib/geometry/triangle.cpp b/src/nrlib/geometry/triangle.cpp
index 5c181ef..0f3ed74 100644
--- a/src/nrlib/geometry/triangle.cpp
+++ b/src/nrlib/geometry/triangle.cpp
@@ -136,6 +136,22 @@ double Triangle::FindNearestPoint(const Line& line, Point& nearest_pt) const
     nearest_pt = pt;
   }
 
+  // An end point of the line can be nearest to the interior of the triangle.
+  NRLib::Point normal = NRLib::Cross(p2_ - p1_, p3_ - p1_);
+  if (normal.Norm() > 0.0) {
+    for (int i = 0; i < 2; ++i) {
+      const NRLib::Point & end = (i == 0) ? line.GetPt1() : line.GetPt2();
+      bool is_end = (i == 0) ? line.IsEndPt1() : line.IsEndPt2();
+      if (is_end && FindIntersection(NRLib::Line::InfiniteLine(end, normal), pt, true)) {
+        dist = end.GetDistance(pt);
+        if (dist < min_dist) {
+          min_dist = dist;
+          nearest_pt = pt;
+        }
+      }
+    }
+  }
+
   return min_dist;
 }
 
-- 
2.43.0


From 6e6d59c69941a7241f18a3fc21affb7d4fabff63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:13:00 +0000
Subject: [PATCH 038/139] fix: Sort3x3 indexed outside its matrices for
 eigenvalues below -100000

---
 src/nrlib/flens/nrlib_flens.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nrlib/flens/nrlib_flens.cpp b/src/nrlib/flens/nrlib_flens.cpp
index a47aecd..8464294 100644
--- a/src/nrlib/flens/nrlib_flens.cpp
+++ b/src/nrlib/flens/nrlib_flens.cpp
@@ -309,7 +309,7 @@ void NRLib::Sort3x3(NRLib::Vector & Eval,
   }
 
   for (int j=0 ; j < 3 ; j++) {
-    double max = -100000.0;
+    double max = -std::numeric_limits<double>::infinity();
     for (int i=0 ; i < 3 ; i++) {
       if (j==0 || (j==1 && i!=index(0)) ||(j==2 && i!=index(0) && i!=index(1))) {
         if (Eval(i) > max) {
-- 
2.43.0


From 28a3a9a493beac83f46be2f0c77172fa410d0878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:20:47 +0000
Subject: [PATCH 039/139] fix: Krig2D left out data beyond the last block's
 nominal end when kriging in blocks

---
 src/nrlib/statistics/kriging.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/nrlib/statistics/kriging.cpp b/src/nrlib/statistics/kriging.cpp
index 01e3a68..6d88f8c 100644
--- a/src/nrlib/statistics/kriging.cpp
+++ b/src/nrlib/statistics/kriging.cpp
@@ -641,17 +641,17 @@ void Kriging::FindOptimalDataInBlock(const Grid2D<double>          & trend,
         kriging_data_blocks[index] = kriging_data.NewInstance();
 
         size_t imin_block = i*nxb;
-        size_t imax_block = std::min(static_cast<int>((i+1)*nxb), static_cast<int>(nx));
+        size_t imax_block = (i == n_blocks_x - 1) ? nx : std::min((i+1)*nxb, nx);  // The last block takes the rest of the grid
         size_t jmin_block = j*nyb;
-        size_t jmax_block = std::min(static_cast<int>((j+1)*nyb), static_cast<int>(ny));
+        size_t jmax_block = (j == n_blocks_y - 1) ? ny : std::min((j+1)*nyb, ny);
         double P_est;
 
         DataInBlockBinarySearch(P_est, P_min, P_max, rx, ry, nx, ny, imin_block, imax_block, jmin_block, jmax_block, true, true, true, true, min_data_in_range, kriging_data, 0.05);
 
         size_t imin_range = std::max(static_cast<int>(std::floor(static_cast<double>(i*nxb)-P_est*static_cast<double>(rx))), 0);
-        size_t imax_range = std::min(static_cast<int>(std::ceil(static_cast<double>((i+1)*nxb)+P_est*static_cast<double>(rx))), static_cast<int>(nx));
+        size_t imax_range = std::min(static_cast<int>(std::ceil(static_cast<double>(imax_block)+P_est*static_cast<double>(rx))), static_cast<int>(nx));
         size_t jmin_range = std::max(static_cast<int>(std::floor(static_cast<double>(j*nyb)-P_est*static_cast<double>(ry))), 0);
-        size_t jmax_range = std::min(static_cast<int>(std::ceil(static_cast<double>((j+1)*nyb)+P_est*static_cast<double>(ry))), static_cast<int>(ny));
+        size_t jmax_range = std::min(static_cast<int>(std::ceil(static_cast<double>(jmax_block)+P_est*static_cast<double>(ry))), static_cast<int>(ny));
 
         kriging_data.AddDataToBlock(*kriging_data_blocks[index], imin_range, imax_range, jmin_range, jmax_range);
 
-- 
2.43.0


From ceab5301f838026680af99400a81fa5ef617895d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:20:47 +0000
Subject: [PATCH 040/139] fix: Krig2D returned the trend as residual in blocks
 without data

---
 src/nrlib/statistics/kriging.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/nrlib/statistics/kriging.cpp b/src/nrlib/statistics/kriging.cpp
index 6d88f8c..e3db39d 100644
--- a/src/nrlib/statistics/kriging.cpp
+++ b/src/nrlib/statistics/kriging.cpp
@@ -960,6 +960,11 @@ void Kriging::Krig2DBlock(const Grid2D<double>      & trend_orig,
       }
     }
   }
+  else if (get_residuals) { // no data, no residual
+    for (int i = imin ; i < imax ; i++)
+      for (int j = jmin ; j < jmax ; j++)
+        trend(i,j) = 0.0;
+  }
 }
 
 //---------------------------------------------------------------
@@ -1074,6 +1079,11 @@ void Kriging::Krig2DBlock(const RegularSurface<double>   & trend_orig,
       }
     }
   }
+  else if (get_residuals) { // no data, no residual
+    for (int i = imin ; i < imax ; i++)
+      for (int j = jmin ; j < jmax ; j++)
+        trend(i,j) = 0.0;
+  }
 }
 
 
-- 
2.43.0


From b6696b1b11f8a01fd6935f65fbe022a4037437ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:21:28 +0000
Subject: [PATCH 041/139] fix: SecondayCondDistrMultiNormal2D mixed up local
 correlations after eliminating repeated observations

---
 src/nrlib/statistics/posteriormultinormal.cpp | 18 +++++++++++-------
 src/nrlib/statistics/posteriormultinormal.hpp |  2 +-
 2 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/nrlib/statistics/posteriormultinormal.cpp b/src/nrlib/statistics/posteriormultinormal.cpp
index 12091cc..81d6453 100644
--- a/src/nrlib/statistics/posteriormultinormal.cpp
+++ b/src/nrlib/statistics/posteriormultinormal.cpp
@@ -161,7 +161,8 @@ bool NRLib::SecondayCondDistrMultiNormal2D(const std::vector<NRLib::Point> & pos
 
   std::vector<NRLib::Point> pos_known_used = pos_known;
   std::vector<double>       std_known_used = std_known;
-  EliminateLargeCorr(pos_known_used, delta_known, std_known_used, local_corr, vario);
+  std::vector<double>       local_corr_used = local_corr;
+  EliminateLargeCorr(pos_known_used, delta_known, std_known_used, local_corr_used, vario);
   int n_used = static_cast<int>(pos_known_used.size());
 
   sigma_22 = SymmetricMatrix(n_used);
@@ -170,10 +171,10 @@ bool NRLib::SecondayCondDistrMultiNormal2D(const std::vector<NRLib::Point> & pos
   for(int i = 0; i < n_used; i++) {
     for(int j = 0; j <= i; j++) {
       double corr;
-      if(local_corr[i] > local_corr[j])
-        corr = local_corr[j];
-      else if(local_corr[j] > local_corr[i])
-        corr = local_corr[i];
+      if(local_corr_used[i] > local_corr_used[j])
+        corr = local_corr_used[j];
+      else if(local_corr_used[j] > local_corr_used[i])
+        corr = local_corr_used[i];
       else
         corr = 1.0;
 
@@ -183,7 +184,7 @@ bool NRLib::SecondayCondDistrMultiNormal2D(const std::vector<NRLib::Point> & pos
     }
 
     for(int j = 0; j < n_unknown; j++)
-      sigma_12(j,i) = std_known_used[i]*std_unknown[j]*local_corr[i]*vario.GetCorr(pos_known_used[i].x-pos_unknown[j].x,
+      sigma_12(j,i) = std_known_used[i]*std_unknown[j]*local_corr_used[i]*vario.GetCorr(pos_known_used[i].x-pos_unknown[j].x,
                                                                               pos_known_used[i].y-pos_unknown[j].y);
   }
 
@@ -228,7 +229,7 @@ void
 NRLib::EliminateLargeCorr(std::vector<NRLib::Point> & pos_known,
                           Vector                    & delta_known,
                           std::vector<double>       & std_known,
-                          const std::vector<double> & local_corr,
+                          std::vector<double>       & local_corr,
                           const Variogram           & vario)
 {
   std::vector<int>                obs_chain_map;
@@ -238,16 +239,19 @@ NRLib::EliminateLargeCorr(std::vector<NRLib::Point> & pos_known,
   std::vector<NRLib::Point> pos_known_used(obs_chains.size());
   Vector                    delta_known_used(static_cast<int>(obs_chains.size()));
   std::vector<double>       std_known_used(obs_chains.size());
+  std::vector<double>       local_corr_used(obs_chains.size());
 
   for(size_t i=0;i<obs_chains.size();i++) {
     //For simplicity, use values from first obs, instead of averaging.
     pos_known_used[i]   = pos_known[obs_chains[i][0]];
     delta_known_used(static_cast<int>(i)) = delta_known(static_cast<int>(obs_chains[i][0]));
     std_known_used[i]   = std_known[obs_chains[i][0]];
+    local_corr_used[i]  = local_corr[obs_chains[i][0]];
   }
   pos_known   = pos_known_used;
   delta_known = delta_known_used;
   std_known   = std_known_used;
+  local_corr  = local_corr_used;
 }
 
 void
diff --git a/src/nrlib/statistics/posteriormultinormal.hpp b/src/nrlib/statistics/posteriormultinormal.hpp
index 9af1a64..0627bbb 100644
--- a/src/nrlib/statistics/posteriormultinormal.hpp
+++ b/src/nrlib/statistics/posteriormultinormal.hpp
@@ -59,7 +59,7 @@ namespace NRLib {
   void EliminateLargeCorr(std::vector<NRLib::Point> & pos_known,
                           Vector                    & delta_known,
                           std::vector<double>       & std_known,
-                          const std::vector<double> & local_corr,
+                          std::vector<double>       & local_corr,
                           const Variogram           & vario);
 
   void IdentifyLargeCorr(const std::vector<NRLib::Point> & pos_known,
-- 
2.43.0


From 0baeb59ab5369216d73ea75119e91155f69bb2af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:21:29 +0000
Subject: [PATCH 042/139] fix: IdentifyLargeCorr took a primary and a secondary
 observation for the same, depending on their order

---
 src/nrlib/statistics/posteriormultinormal.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nrlib/statistics/posteriormultinormal.cpp b/src/nrlib/statistics/posteriormultinormal.cpp
index 81d6453..b824e04 100644
--- a/src/nrlib/statistics/posteriormultinormal.cpp
+++ b/src/nrlib/statistics/posteriormultinormal.cpp
@@ -280,7 +280,7 @@ NRLib::IdentifyLargeCorr(const std::vector<NRLib::Point> & pos_known,
             if(local_corr[i] > local_corr[j])
               corr = local_corr[j];
             else if(local_corr[j] > local_corr[i])
-              corr = local_corr[j];
+              corr = local_corr[i];
             else
               corr = 1.0;
             corr *= vario.GetCorr(pos_known[i].x-pos_known[j].x, pos_known[i].y-pos_known[j].y);
-- 
2.43.0


From 2bd41db0ad9b8693b93dd4c365b5088e5ae23edb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:21:29 +0000
Subject: [PATCH 043/139] fix: Cov of one pair of values was NaN, where Var of
 one value is 0

---
 src/nrlib/statistics/statistics.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/nrlib/statistics/statistics.hpp b/src/nrlib/statistics/statistics.hpp
index 3a7a6b3..2875eb0 100644
--- a/src/nrlib/statistics/statistics.hpp
+++ b/src/nrlib/statistics/statistics.hpp
@@ -342,6 +342,10 @@ double NRLib::Cov(FIA beginA, FIA endA, FIB beginB, FIB endB,
     }
   }
 
+  if (cA == 1) {
+    return 0.0;
+  }
+
   double sum = 0.0;
   double meanA = NRLib::Mean(beginA, endA, mayThrow);
   double meanB = NRLib::Mean(beginB, endB, mayThrow);
-- 
2.43.0


From 5c266d88ec91503b70f04274785f4dbefa1cdbc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:21:29 +0000
Subject: [PATCH 044/139] fix: MultiNormal::Draw used the triangular Cholesky
 factor as a symmetric matrix, giving the wrong covariance

---
 src/nrlib/statistics/multinormal.cpp | 17 +++++++++++++----
 src/nrlib/statistics/multinormal.hpp |  1 +
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/nrlib/statistics/multinormal.cpp b/src/nrlib/statistics/multinormal.cpp
index fa7926b..b435cb2 100644
--- a/src/nrlib/statistics/multinormal.cpp
+++ b/src/nrlib/statistics/multinormal.cpp
@@ -55,8 +55,7 @@ MultiNormal::Draw() const
   for (int i = 0; i < rand_01.length(); i++)
     rand_01(i) = normal.Draw();
 
-  Vector help = chol_fac_cov_*rand_01;
-  result +=help;
+  AddTransformed(rand_01, result);
 
   return result;
 
@@ -72,14 +71,24 @@ MultiNormal::Draw(RandomGenerator & rg) const
   for (int i = 0; i < rand_01.length(); i++)
     rand_01(i) = normal.Draw(rg);
 
-  Vector help = chol_fac_cov_*rand_01;
-  result += help;
+  AddTransformed(rand_01, result);
 
   return result;
 
 }
 
 
+void
+MultiNormal::AddTransformed(const Vector & rand_01,
+                            Vector       & result) const
+{
+  // Only one triangle of chol_fac_cov_ holds the Cholesky factor, it is not to be used as a symmetric matrix.
+  for (int i = 0; i < rand_01.length(); i++)
+    for (int j = 0; j <= i; j++)
+      result(i) += (chol_fac_cov_.upLo() == flens::Upper ? chol_fac_cov_(j, i) : chol_fac_cov_(i, j)) * rand_01(j);
+}
+
+
 double
 MultiNormal::Potential(const Vector & x)  const
 {
diff --git a/src/nrlib/statistics/multinormal.hpp b/src/nrlib/statistics/multinormal.hpp
index acdf7e7..638b6e1 100644
--- a/src/nrlib/statistics/multinormal.hpp
+++ b/src/nrlib/statistics/multinormal.hpp
@@ -47,6 +47,7 @@ namespace NRLib {
     double Potential(const Vector & x) const; // -Log of pdf
 
   private:
+    void AddTransformed(const Vector & rand_01, Vector & result) const; // Adds (Cholesky factor)*rand_01
     Vector exp_;
     SymmetricMatrix chol_fac_cov_;
     SymmetricMatrix cov_;
-- 
2.43.0


From fb42aa675d12a91d8e61f67f540b25bf93890c02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:21:29 +0000
Subject: [PATCH 045/139] fix: MultiNormal::SetParameters kept the old
 covariance for Draw

---
 src/nrlib/statistics/multinormal.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/nrlib/statistics/multinormal.hpp b/src/nrlib/statistics/multinormal.hpp
index 638b6e1..d99d2a8 100644
--- a/src/nrlib/statistics/multinormal.hpp
+++ b/src/nrlib/statistics/multinormal.hpp
@@ -59,7 +59,8 @@ void MultiNormal::SetParameters(const Vector & exp,
 {
   exp_ = exp;
   cov_ = cov;
-
+  CholeskyFactorize(cov);
+  chol_fac_cov_ = cov;
 }
 
 
-- 
2.43.0


From 1c1327ab14d533014272b65c9ac5a51f114df15b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:23:32 +0000
Subject: [PATCH 046/139] fix: Krig2D ignored all continuous data when there
 were more of them than grid nodes

---
 src/nrlib/statistics/kriging.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nrlib/statistics/kriging.cpp b/src/nrlib/statistics/kriging.cpp
index e3db39d..4589d44 100644
--- a/src/nrlib/statistics/kriging.cpp
+++ b/src/nrlib/statistics/kriging.cpp
@@ -1052,7 +1052,7 @@ void Kriging::Krig2DBlock(const RegularSurface<double>   & trend_orig,
     jmax = std::min(static_cast<int>((block_y+1)*nyb),ny);
 
 
-  if (md > 0 && md <= nx*ny) {
+  if (md > 0) {
 
     SymmetricMatrix K(md);
     Vector          residual(md);
-- 
2.43.0


From 4e0f090c8aea7aec8be1868247502d9b90b89241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:23:32 +0000
Subject: [PATCH 047/139] fix: Krig1D raised when there were no observations

---
 src/nrlib/statistics/kriging.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/nrlib/statistics/kriging.cpp b/src/nrlib/statistics/kriging.cpp
index 4589d44..e6f9b50 100644
--- a/src/nrlib/statistics/kriging.cpp
+++ b/src/nrlib/statistics/kriging.cpp
@@ -52,6 +52,8 @@ void Kriging::Krig1D(std::vector<double>       &field,
   assert(field.size() == is_known.size());
   assert(obs.size() <= field.size());
   int n_obs = static_cast<int>(obs.size());
+  if (n_obs == 0) // No observations, keep the trend
+    return;
 
   NRLib::Vector residual(static_cast<int> (n_obs));
   int j = 0;
-- 
2.43.0


From 089a63268bc3d154851e829286c373abaf323193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:33:48 +0000
Subject: [PATCH 048/139] fix: RegularSurfaceRotated::SetAngle kept the extent
 of the old angle

---
 src/nrlib/surface/regularsurfacerotated.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nrlib/surface/regularsurfacerotated.hpp b/src/nrlib/surface/regularsurfacerotated.hpp
index 5f00431..3f08e0f 100644
--- a/src/nrlib/surface/regularsurfacerotated.hpp
+++ b/src/nrlib/surface/regularsurfacerotated.hpp
@@ -150,7 +150,7 @@ public:
   RegularSurface<A> ResampleSurface() const ;
 
   double GetAngle() const       { return angle_  ;}
-  void   SetAngle(double angle) { angle_ = angle ;}
+  void   SetAngle(double angle) { angle_ = angle; CalculateMinMaxXY(); }
 
   A GetMissingValue() const { return surface_.GetMissingValue() ;}
   void SetMissingValue(A missing_val) { surface_.SetMissingValue(missing_val); }
-- 
2.43.0


From 6949be77c989ef869c2f3c47bda278976265658e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:33:48 +0000
Subject: [PATCH 049/139] fix: RegularSurfaceRotated::ResampleSurface took the
 values from other positions than those of the new nodes

---
 src/nrlib/surface/regularsurfacerotated.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/nrlib/surface/regularsurfacerotated.hpp b/src/nrlib/surface/regularsurfacerotated.hpp
index 3f08e0f..31450f5 100644
--- a/src/nrlib/surface/regularsurfacerotated.hpp
+++ b/src/nrlib/surface/regularsurfacerotated.hpp
@@ -470,8 +470,7 @@ RegularSurface<A> RegularSurfaceRotated<A>::ResampleSurface() const
   for(i=0;i<nx;i++)
     for(j=0;j<ny;j++)
     {
-      x = x_min_ + i*dx;
-      y = y_min_ + j*dy;
+      surf.GetXY(i, j, x, y);
       value = GetZ(x,y);
       surf(i,j) = value;
     }
-- 
2.43.0


From 432e117d4d552074b542d4b2e34166cd82dd00cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:33:48 +0000
Subject: [PATCH 050/139] fix: Storm binary surfaces with one row or column
 could be written but not read

---
 src/nrlib/surface/surfaceio.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/nrlib/surface/surfaceio.hpp b/src/nrlib/surface/surfaceio.hpp
index ab8f4d9..a3854a7 100644
--- a/src/nrlib/surface/surfaceio.hpp
+++ b/src/nrlib/surface/surfaceio.hpp
@@ -131,10 +131,10 @@ void NRLib::ReadStormBinarySurf(const std::string & filename,
     double lx = x_max - x_min;
     double ly = y_max - y_min;
 
-    if (!NRLibPrivate::Equal(lx/(ni-1), dx)) {
+    if (ni != 1 && !NRLibPrivate::Equal(lx/(ni-1), dx)) {
       throw FileFormatError("Inconsistent data in file. dx != lx/(nx-1).");
     }
-    if (!NRLibPrivate::Equal(ly/(nj-1), dy)) {
+    if (nj != 1 && !NRLibPrivate::Equal(ly/(nj-1), dy)) {
       throw FileFormatError("Inconsistent data in file. dy != ly/(ny-1).");
     }
 
-- 
2.43.0


From 5fbdd96771355f9d9b2548046b9ef504cbe068f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:33:48 +0000
Subject: [PATCH 051/139] fix: the Sgri readers read past the end of the line
 with the binary file's name

---
 src/nrlib/surface/surfaceio.cpp | 2 +-
 src/nrlib/surface/surfaceio.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/nrlib/surface/surfaceio.cpp b/src/nrlib/surface/surfaceio.cpp
index 815a1f8..7f90310 100644
--- a/src/nrlib/surface/surfaceio.cpp
+++ b/src/nrlib/surface/surfaceio.cpp
@@ -202,7 +202,7 @@ ReadMultipleSgriSurf(const std::string& filename, const std::vector<std::string>
       std::locale loc;
       i = 0;
       char c = tmp_str[i];
-      while (!std::isspace(c,loc)) {
+      while (c != '\0' && !std::isspace(c,loc)) {
         i++;
         c = tmp_str[i];
       }
diff --git a/src/nrlib/surface/surfaceio.hpp b/src/nrlib/surface/surfaceio.hpp
index a3854a7..c7c0738 100644
--- a/src/nrlib/surface/surfaceio.hpp
+++ b/src/nrlib/surface/surfaceio.hpp
@@ -336,7 +336,7 @@ void  NRLib::ReadSgriSurf(const std::string & filename,
       std::locale loc;
       int i = 0;
       char c = tmp_str[i];
-      while (!std::isspace(c,loc)) {
+      while (c != '\0' && !std::isspace(c,loc)) {
         i++;
         c = tmp_str[i];
       }
-- 
2.43.0


From b6f4a1413af104678a2a223624a46434e1d96827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:33:48 +0000
Subject: [PATCH 052/139] fix: ReadSgriSurf gave the surface a larger node
 distance than the file's

---
 src/nrlib/surface/surfaceio.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/nrlib/surface/surfaceio.hpp b/src/nrlib/surface/surfaceio.hpp
index c7c0738..c0e9b0d 100644
--- a/src/nrlib/surface/surfaceio.hpp
+++ b/src/nrlib/surface/surfaceio.hpp
@@ -312,8 +312,8 @@ void  NRLib::ReadSgriSurf(const std::string & filename,
       throw Exception("Error: Grid sampling in Y-dir must be > 0.0.\n");
     }
 
-    double lx = nx*dx;
-    double ly = ny*dy;
+    double lx = (nx-1)*dx;
+    double ly = (ny-1)*dy;
 
     double x_min = min_values[0]-0.5*dx; //In regular grid, these are at value;
     double y_min = min_values[1]-0.5*dy; //in sgri, at corner of cell, hence move.
-- 
2.43.0


From 64fb7089f920b9b853dd708bd857e00703754aa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:33:48 +0000
Subject: [PATCH 053/139] fix: ReadMultipleSgriSurf accepted files with other
 axis labels than the ones asked for

---
 src/nrlib/surface/surfaceio.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/nrlib/surface/surfaceio.cpp b/src/nrlib/surface/surfaceio.cpp
index 7f90310..21ba6b8 100644
--- a/src/nrlib/surface/surfaceio.cpp
+++ b/src/nrlib/surface/surfaceio.cpp
@@ -121,12 +121,14 @@ ReadMultipleSgriSurf(const std::string& filename, const std::vector<std::string>
     for (i=0; i<dim; i++) {
       getline(header_file, axis_labels[i]);
       if(labels.size() > static_cast<size_t>(i)) {
-        NRLib::Uppercase(axis_labels[i]);
-        NRLib::Uppercase(labels[i]);
-        if (axis_labels[i].find(labels[i]) == std::string::npos)
+        std::string axis_label = NRLib::Uppercase(axis_labels[i]);
+        std::string label      = NRLib::Uppercase(labels[i]);
+        if (axis_label.find(label) == std::string::npos)
           err_txt += "Wrong axis labels. Label for axis "+NRLib::ToString(i)+" should be '"+labels[i]+"'.\n";
       }
     }
+    if (!err_txt.empty())
+      throw Exception(err_txt);
     getline(header_file, tmp_str);
 
     //Reading record 4+dim: Number of grids
-- 
2.43.0


From 49374ee9cc7d2f2df65a200462a8bf0140bd9f5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:33:48 +0000
Subject: [PATCH 054/139] fix: the Sgri readers used an uninitialised flag when
 the header ends early

---
 src/nrlib/surface/surfaceio.cpp | 2 +-
 src/nrlib/surface/surfaceio.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/nrlib/surface/surfaceio.cpp b/src/nrlib/surface/surfaceio.cpp
index 21ba6b8..6645d6e 100644
--- a/src/nrlib/surface/surfaceio.cpp
+++ b/src/nrlib/surface/surfaceio.cpp
@@ -217,7 +217,7 @@ ReadMultipleSgriSurf(const std::string& filename, const std::vector<std::string>
       bin_file_name = path + "/" + tmp_str;
     }
     //Reading record 12+dim+ngrid: Complex values
-    bool has_complex;
+    bool has_complex = false;
     header_file >> has_complex;
     if (has_complex != 0 ) {
       throw Exception("Error: Can not read Sgri binary file. Complex values?");
diff --git a/src/nrlib/surface/surfaceio.hpp b/src/nrlib/surface/surfaceio.hpp
index c0e9b0d..f60db44 100644
--- a/src/nrlib/surface/surfaceio.hpp
+++ b/src/nrlib/surface/surfaceio.hpp
@@ -349,7 +349,7 @@ void  NRLib::ReadSgriSurf(const std::string & filename,
       bin_file_name = path + "/" + tmp_str;
     }
     //Reading record 12+dim+ngrid: Complex values
-    bool has_complex;
+    bool has_complex = false;
     header_file >> has_complex;
     if (has_complex != 0 ) {
       throw Exception("Error: Can not read Sgri binary file. Complex values?");
-- 
2.43.0


From ff547d905af69de3aa0804e94d0b19aed5cac3d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:33:48 +0000
Subject: [PATCH 055/139] fix: FindSurfaceFileType raised for unknown files
 that start with a line of two words

---
 src/nrlib/surface/surfaceio.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nrlib/surface/surfaceio.cpp b/src/nrlib/surface/surfaceio.cpp
index 6645d6e..fff0417 100644
--- a/src/nrlib/surface/surfaceio.cpp
+++ b/src/nrlib/surface/surfaceio.cpp
@@ -254,7 +254,7 @@ bool FindHufsaTrends(const std::string& filename)
   std::vector<std::string> tokens = NRLib::GetTokens(line_string);
 
   //Check if the first line has two number elements
-  if (tokens.size() == 2 && NRLib::IsNumber(tokens[1])) {
+  if (tokens.size() == 2 && NRLib::IsType<int>(tokens[0]) && NRLib::IsType<int>(tokens[1])) {
     int n_row = NRLib::ParseType<int>(tokens[0]);
     int n_col = NRLib::ParseType<int>(tokens[1]);
     std::getline(file, line_string);
-- 
2.43.0


From 3f637a867f8a736750903d592759f2c2743162d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:35:24 +0000
Subject: [PATCH 056/139] fix: Storm binary surfaces of single precision were
 read and written past the end of their values

---
 src/nrlib/surface/surfaceio.hpp | 18 +++++++-----------
 1 file changed, 7 insertions(+), 11 deletions(-)

diff --git a/src/nrlib/surface/surfaceio.hpp b/src/nrlib/surface/surfaceio.hpp
index f60db44..ee3e38f 100644
--- a/src/nrlib/surface/surfaceio.hpp
+++ b/src/nrlib/surface/surfaceio.hpp
@@ -142,7 +142,9 @@ void NRLib::ReadStormBinarySurf(const std::string & filename,
     surface.SetDimensions(x_min, y_min, lx, ly);
 
     DiscardRestOfLine(file, line, true);
-    ReadBinaryDoubleArray(file, surface.begin(), surface.GetN());
+    std::vector<double> data(surface.GetN());
+    ReadBinaryDoubleArray(file, data.begin(), data.size());
+    std::copy(data.begin(), data.end(), surface.begin());
 
     surface.SetMissingValue(static_cast<A>(STORM_MISSING));
 
@@ -432,16 +434,10 @@ void NRLib::WriteStormBinarySurf(const RegularSurface<A> & surf,
        << surf.GetXMin() << " " << surf.GetXMax() << " "
        << surf.GetYMin() << " " << surf.GetYMax() << "\n";
 
-  if (surf.GetMissingValue() == STORM_MISSING) {
-    // Purify *sometimes* claims a UMR for the call below. No-one understands why...
-    WriteBinaryDoubleArray(file, surf.begin(), surf.end());
-  }
-  else {
-    std::vector<double> data(surf.GetN());
-    std::copy(surf.begin(), surf.end(), data.begin());
-    std::replace(data.begin(), data.end(), surf.GetMissingValue(), static_cast<A>(STORM_MISSING));
-    WriteBinaryDoubleArray(file, data.begin(), data.end());
-  }
+  std::vector<double> data(surf.begin(), surf.end());
+  if (surf.GetMissingValue() != STORM_MISSING)
+    std::replace(data.begin(), data.end(), static_cast<double>(surf.GetMissingValue()), STORM_MISSING);
+  WriteBinaryDoubleArray(file, data.begin(), data.end());
   file.close();
 }
 
-- 
2.43.0


From 83a2e57beea019f8d2b289b82ba2e2a2a763fc1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:43:49 +0000
Subject: [PATCH 057/139] fix: copies of a Volume lost its tolerance

---
 src/nrlib/volume/volume.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nrlib/volume/volume.cpp b/src/nrlib/volume/volume.cpp
index 9082607..45cdc9f 100644
--- a/src/nrlib/volume/volume.cpp
+++ b/src/nrlib/volume/volume.cpp
@@ -118,7 +118,7 @@ Volume::Volume(const Volume & volume)
   else {
     erosion_bot_ = 0;
   }
-  tolerance_   = 1e-6;
+  tolerance_   = volume.tolerance_;
 }
 
 
-- 
2.43.0


From ae182fe2a20f5a7cd73cef76db58e792979f1fd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:43:49 +0000
Subject: [PATCH 058/139] fix: Volume::FindCenter ignored the angle of the
 volume

---
 src/nrlib/volume/volume.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/nrlib/volume/volume.cpp b/src/nrlib/volume/volume.cpp
index 45cdc9f..c6047cf 100644
--- a/src/nrlib/volume/volume.cpp
+++ b/src/nrlib/volume/volume.cpp
@@ -328,8 +328,7 @@ Volume::GetZExtreme(size_t nx, size_t ny, const Surface<double> * surf, bool get
 void
 Volume::FindCenter(double & x, double & y, double & z) const
 {
-  x = GetXMin() + 0.5 * GetLX();
-  y = GetYMin() + 0.5 * GetLY();
+  LocalToGlobalCoord(0.5 * GetLX(), 0.5 * GetLY(), x, y);
   z = 0.5 * (z_top_->GetZ(x,y) + z_bot_->GetZ(x,y));
 }
 
-- 
2.43.0


From 45c3bfb799b85c4117867658915a0203697faf0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:43:50 +0000
Subject: [PATCH 059/139] fix: Volume deleted a surface twice when it could not
 be read from file

---
 src/nrlib/volume/volume.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/nrlib/volume/volume.cpp b/src/nrlib/volume/volume.cpp
index c6047cf..7767520 100644
--- a/src/nrlib/volume/volume.cpp
+++ b/src/nrlib/volume/volume.cpp
@@ -409,6 +409,7 @@ void Volume::ReadVolumeFromFile(std::ifstream& file, int line, const std::string
   }
   token = ReadNext<std::string>(file, line);
   delete z_bot_;
+  z_bot_ = NULL;
   if (IsType<double>(token)) {
     z_bot_ = new ConstantSurface<double>(ParseType<double>(token));
     botfile = false;
@@ -419,6 +420,7 @@ void Volume::ReadVolumeFromFile(std::ifstream& file, int line, const std::string
   }
   token = ReadNext<std::string>(file, line);
   delete erosion_top_;
+  erosion_top_ = NULL;
   if (IsType<double>(token)) {
     erosion_top_ = new ConstantSurface<double>(ParseType<double>(token));
     toperofile = false;
@@ -429,6 +431,7 @@ void Volume::ReadVolumeFromFile(std::ifstream& file, int line, const std::string
   }
   token = ReadNext<std::string>(file, line);
   delete erosion_bot_;
+  erosion_bot_ = NULL;
   if (IsType<double>(token)) {
     erosion_bot_ = new ConstantSurface<double>(ParseType<double>(token));
     boterofile = false;
-- 
2.43.0


From ab3cedfb2ddefccedd2fd4203051d3c940d8899b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:43:50 +0000
Subject: [PATCH 060/139] fix: Volume::SetSurfaces used freed memory when given
 the volume's own surfaces

---
 src/nrlib/volume/volume.cpp | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/nrlib/volume/volume.cpp b/src/nrlib/volume/volume.cpp
index 7767520..136c42f 100644
--- a/src/nrlib/volume/volume.cpp
+++ b/src/nrlib/volume/volume.cpp
@@ -206,11 +206,15 @@ void Volume::SetSurfaces(const Surface<double>& top_surf,
                          const Surface<double>& bot_surf,
                          bool  skip_check)
 {
+  // Cloned first, as the arguments may be the surfaces of this volume.
+  Surface<double> * new_top = top_surf.Clone();
+  Surface<double> * new_bot = bot_surf.Clone();
+
   delete z_top_;
-  z_top_ = top_surf.Clone();
+  z_top_ = new_top;
 
   delete z_bot_;
-  z_bot_ = bot_surf.Clone();
+  z_bot_ = new_bot;
 
   if ((lx_ > 0.0 || ly_ > 0.0 ) && skip_check == false) { //Make sure area is set, and we need to check
     CheckSurfaces();
@@ -225,17 +229,23 @@ void Volume::SetSurfaces(const Surface<double>& top_surf,
                          const Surface<double>& erosion_top,
                          const Surface<double>& erosion_bot)
 {
+  // Cloned first, as the arguments may be the surfaces of this volume.
+  Surface<double> * new_top         = top_surf.Clone();
+  Surface<double> * new_bot         = bot_surf.Clone();
+  Surface<double> * new_erosion_top = erosion_top.Clone();
+  Surface<double> * new_erosion_bot = erosion_bot.Clone();
+
   delete z_top_;
-  z_top_ = top_surf.Clone();
+  z_top_ = new_top;
 
   delete z_bot_;
-  z_bot_ = bot_surf.Clone();
+  z_bot_ = new_bot;
 
   delete erosion_top_;
-  erosion_top_ = erosion_top.Clone();
+  erosion_top_ = new_erosion_top;
 
   delete erosion_bot_;
-  erosion_bot_ = erosion_bot.Clone();
+  erosion_bot_ = new_erosion_bot;
 
   if (lx_ > 0.0 || ly_ > 0.0 ) { //Check that area is set.
     CheckSurfaces();
-- 
2.43.0


From 5a6d5bf72bd1e23f811da068519028eb372486c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:43:50 +0000
Subject: [PATCH 061/139] fix: FindIndex of the storm grids gave a layer
 outside the grid for points on the bottom surface

---
 src/nrlib/stormgrid/stormcontgrid.cpp   | 2 ++
 src/nrlib/stormgrid/stormfaciesgrid.cpp | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/nrlib/stormgrid/stormcontgrid.cpp b/src/nrlib/stormgrid/stormcontgrid.cpp
index 18771c1..7bbdcc1 100644
--- a/src/nrlib/stormgrid/stormcontgrid.cpp
+++ b/src/nrlib/stormgrid/stormcontgrid.cpp
@@ -337,6 +337,8 @@ void StormContGrid::FindIndex(double x, double y, double z, size_t& i_out, size_
   }
   else {
     k_out = static_cast<size_t>((z - z_top)/dz);
+    if (k_out >= GetNK()) // z on the bottom surface
+      k_out = GetNK() - 1;
   }
 
 }
diff --git a/src/nrlib/stormgrid/stormfaciesgrid.cpp b/src/nrlib/stormgrid/stormfaciesgrid.cpp
index 9827cba..3d9d7dd 100644
--- a/src/nrlib/stormgrid/stormfaciesgrid.cpp
+++ b/src/nrlib/stormgrid/stormfaciesgrid.cpp
@@ -295,6 +295,8 @@ void StormFaciesGrid::FindIndex(double x, double y, double z, size_t& i_out, siz
   }
   else {
     k_out = static_cast<size_t>((z - z_top)/dz);
+    if (k_out >= GetNK()) // z on the bottom surface
+      k_out = GetNK() - 1;
   }
 
 }
-- 
2.43.0


From e56451cbd24369c37d52b491f67862604d43133c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:43:50 +0000
Subject: [PATCH 062/139] fix: StormFaciesGrid::FindIndex accepted points just
 outside the grid

---
 src/nrlib/stormgrid/stormfaciesgrid.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/nrlib/stormgrid/stormfaciesgrid.cpp b/src/nrlib/stormgrid/stormfaciesgrid.cpp
index 3d9d7dd..4569887 100644
--- a/src/nrlib/stormgrid/stormfaciesgrid.cpp
+++ b/src/nrlib/stormgrid/stormfaciesgrid.cpp
@@ -282,6 +282,10 @@ void StormFaciesGrid::FindIndex(double x, double y, double z, size_t& i_out, siz
     throw Exception("Index in x direction is too large.\n");
   if(j_out >= GetNJ())
    throw Exception("Index in y direction is too large.\n");
+  if(local_x < 0.0)
+    throw Exception("Local x-coordinate is too small.\n");
+  if(local_y < 0.0)
+    throw Exception("Local y-coordinate is too small.\n");
   double z_top = GetTopSurface().GetZ(x, y);
   double z_bot = GetBotSurface().GetZ(x, y);
   double dz = (z_bot - z_top) / GetNK();
-- 
2.43.0


From 366ec9a4cf852514ee1ac9ff1cdb16c246766a70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:43:50 +0000
Subject: [PATCH 063/139] fix: StormFaciesGrid accepted a body number one past
 the last body

---
 src/nrlib/stormgrid/stormfaciesgrid.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nrlib/stormgrid/stormfaciesgrid.cpp b/src/nrlib/stormgrid/stormfaciesgrid.cpp
index 4569887..6e8b4b1 100644
--- a/src/nrlib/stormgrid/stormfaciesgrid.cpp
+++ b/src/nrlib/stormgrid/stormfaciesgrid.cpp
@@ -253,7 +253,7 @@ void StormFaciesGrid::CheckConsistency() const
   for (size_t ind = 0; ind < GetN(); ++ind) {
     int body = (*this)(ind);
     if ( !IsMissing(body)
-         && (body < 0 || body > static_cast<int>(body_facies_.size())) ) {
+         && (body < 0 || body >= static_cast<int>(body_facies_.size())) ) {
       size_t i, j, k;
       GetIJK(ind, i, j, k);
       throw Exception("Consistency check failed: body number "
-- 
2.43.0


From 29bce8d23dc04647376124fcb006320640e7e149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:43:50 +0000
Subject: [PATCH 064/139] fix: the storm grids took missing surface values for
 depths when computing their thickness

---
 src/nrlib/stormgrid/stormcontgrid.cpp   | 6 ++++--
 src/nrlib/stormgrid/stormfaciesgrid.cpp | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/nrlib/stormgrid/stormcontgrid.cpp b/src/nrlib/stormgrid/stormcontgrid.cpp
index 7bbdcc1..5ca2a5a 100644
--- a/src/nrlib/stormgrid/stormcontgrid.cpp
+++ b/src/nrlib/stormgrid/stormcontgrid.cpp
@@ -513,8 +513,10 @@ double StormContGrid::RecalculateLZ()
     for (size_t j = 0; j < GetNJ(); ++j) {
       double x, y;
       LocalToGlobalCoord(i * GetDX(), j * GetDY(), x, y);
-      lz = std::max(lz, GetBotSurface().GetZ(x, y) -
-                        GetTopSurface().GetZ(x, y));
+      double z_bot = GetBotSurface().GetZ(x, y);
+      double z_top = GetTopSurface().GetZ(x, y);
+      if (!GetBotSurface().IsMissing(z_bot) && !GetTopSurface().IsMissing(z_top))
+        lz = std::max(lz, z_bot - z_top);
     }
   }
   return lz;
diff --git a/src/nrlib/stormgrid/stormfaciesgrid.cpp b/src/nrlib/stormgrid/stormfaciesgrid.cpp
index 6e8b4b1..f2c7909 100644
--- a/src/nrlib/stormgrid/stormfaciesgrid.cpp
+++ b/src/nrlib/stormgrid/stormfaciesgrid.cpp
@@ -335,8 +335,10 @@ double StormFaciesGrid::RecalculateLZ()
     for (size_t j = 0; j < GetNJ(); ++j) {
       double x, y;
       LocalToGlobalCoord(i * GetDX(), j * GetDY(), x, y);
-      lz = std::max(lz, GetBotSurface().GetZ(x, y) -
-                        GetTopSurface().GetZ(x, y));
+      double z_bot = GetBotSurface().GetZ(x, y);
+      double z_top = GetTopSurface().GetZ(x, y);
+      if (!GetBotSurface().IsMissing(z_bot) && !GetTopSurface().IsMissing(z_top))
+        lz = std::max(lz, z_bot - z_top);
     }
   }
   return lz;
-- 
2.43.0


From 99287ae9408187858a4e1955475bb6f9ebcef5b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:43:50 +0000
Subject: [PATCH 065/139] fix: StormContGrid::GetValueClosestInZ extrapolated
 and read layers outside the grid

---
 src/nrlib/stormgrid/stormcontgrid.cpp | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/nrlib/stormgrid/stormcontgrid.cpp b/src/nrlib/stormgrid/stormcontgrid.cpp
index 5ca2a5a..d226887 100644
--- a/src/nrlib/stormgrid/stormcontgrid.cpp
+++ b/src/nrlib/stormgrid/stormcontgrid.cpp
@@ -20,6 +20,7 @@
 // EVEN IF ADVISED OF THE POSSIBILITY OF SUCH DAMAGE.
 
 #include "stormcontgrid.hpp"
+#include <algorithm>
 #include <cmath>
 #include <fstream>
 #include <math.h>
@@ -482,12 +483,17 @@ float StormContGrid::GetValueClosestInZ(double x, double y, double z)const
 
   if (z<z_top+0.5*dz)
     z = z_top+0.5*dz;
-  else if (z>z_bot+0.5*dz)
-    z = z_bot+0.5*dz;
+  else if (z>z_bot-0.5*dz)
+    z = z_bot-0.5*dz;
 
-  int zInd1 = static_cast<int>(floor((z-z_top)/dz)-0.5);
-  double t = (z-z_top)/dz - 0.5 - static_cast<double>(zInd1);
-  int zInd2 = zInd1+1;
+  int nk    = static_cast<int>(GetNK());
+  int zInd1 = 0;
+  double t  = 0.0;
+  if (dz > 0.0) {
+    zInd1 = std::max(0, std::min(nk-1, static_cast<int>(floor((z-z_top)/dz - 0.5))));
+    t     = (z-z_top)/dz - 0.5 - static_cast<double>(zInd1);
+  }
+  int zInd2 = std::min(zInd1+1, nk-1);
   float value = static_cast<float>((1-t)*(*this)(GetIndex(i,j,zInd1))+t*(*this)(GetIndex(i,j,zInd2)));
   return(value);
 }
-- 
2.43.0


From 64f71c8a7e41533d7efb2bfff7676d04bf8faf0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:43:50 +0000
Subject: [PATCH 066/139] fix: the storm grids wrote their coordinates with 4
 or 6 digits

---
 src/nrlib/stormgrid/stormcontgrid.cpp   | 4 ++--
 src/nrlib/stormgrid/stormfaciesgrid.cpp | 2 ++
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/nrlib/stormgrid/stormcontgrid.cpp b/src/nrlib/stormgrid/stormcontgrid.cpp
index d226887..2dd4f62 100644
--- a/src/nrlib/stormgrid/stormcontgrid.cpp
+++ b/src/nrlib/stormgrid/stormcontgrid.cpp
@@ -182,8 +182,7 @@ void StormContGrid::WriteToFile(const std::string& filename, const std::string&
   std::ofstream file;
   OpenWrite(file, filename, std::ios::out | std::ios::binary);
 
-  //file.precision(14);
-  file.precision(4);
+  file.precision(14);
 
   // Header
   if (predefinedHeader == "" && plainAscii==false) {
@@ -198,6 +197,7 @@ void StormContGrid::WriteToFile(const std::string& filename, const std::string&
   else
     file << predefinedHeader;
   // Data
+  file.precision(4);
   int n_data = 0;
   switch (file_format_) {
   case STORM_BINARY:
diff --git a/src/nrlib/stormgrid/stormfaciesgrid.cpp b/src/nrlib/stormgrid/stormfaciesgrid.cpp
index f2c7909..f98dfeb 100644
--- a/src/nrlib/stormgrid/stormfaciesgrid.cpp
+++ b/src/nrlib/stormgrid/stormfaciesgrid.cpp
@@ -109,6 +109,8 @@ void StormFaciesGrid::WriteToFile(const std::string& filename, Endianess file_fo
   std::ofstream file;
   OpenWrite(file, filename, std::ios::out | std::ios::binary);
 
+  file.precision(14);
+
   file << format_desc[file_format_] << "\n\n"
        << zone_number_ << " " << model_file_name_ << " "
        << missing_code_ << "\n\n";
-- 
2.43.0


From 97aa09ab061603cb4b49018eb8ba8b50496e494f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:43:50 +0000
Subject: [PATCH 067/139] fix: StormContGrid read past the end of the Sgri
 header's file name and used an uninitialised flag

---
 src/nrlib/stormgrid/stormcontgrid.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/nrlib/stormgrid/stormcontgrid.cpp b/src/nrlib/stormgrid/stormcontgrid.cpp
index 2dd4f62..0a82186 100644
--- a/src/nrlib/stormgrid/stormcontgrid.cpp
+++ b/src/nrlib/stormgrid/stormcontgrid.cpp
@@ -673,7 +673,7 @@ void StormContGrid::ReadSgriHeader(std::ifstream &headerFile, std::string &binFi
     std::locale loc;
     i = 0;
     char c = tmpStr[i];
-    while (!std::isspace(c,loc)) {
+    while (c != '\0' && !std::isspace(c,loc)) {
       i++;
       c = tmpStr[i];
     }
@@ -681,7 +681,7 @@ void StormContGrid::ReadSgriHeader(std::ifstream &headerFile, std::string &binFi
     binFileName = tmpStr;
   }
   //Reading record 12+dim+ngrid: Complex values
-  bool hasComplex;
+  bool hasComplex = false;
   headerFile >> hasComplex;
   if (hasComplex != 0 ) {
     throw Exception("Error: Can not read Sgri binary file. Complex values?");
-- 
2.43.0


From 49b0c0de741956e52c88cdd989a1800f7fafffab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:47:33 +0000
Subject: [PATCH 068/139] fix: Volume wrote the depth of constant surfaces with
 6 digits

---
 src/nrlib/volume/volume.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/nrlib/volume/volume.cpp b/src/nrlib/volume/volume.cpp
index 136c42f..bf20f31 100644
--- a/src/nrlib/volume/volume.cpp
+++ b/src/nrlib/volume/volume.cpp
@@ -23,6 +23,7 @@
 
 #include <algorithm>
 #include <cmath>
+#include <sstream>
 #include "../iotools/fileio.hpp"
 #include "../iotools/stringtools.hpp"
 #include "../math/constants.hpp"
@@ -355,7 +356,10 @@ static std::string WriteSingleSurface(const Surface<double>* surf,
   }
 
   if (typeid(*surf) == typeid(ConstantSurface<double>)) {
-    return (ToString((dynamic_cast<const ConstantSurface<double>*>(surf))->GetZ()));
+    std::ostringstream depth;
+    depth.precision(14);
+    depth << (dynamic_cast<const ConstantSurface<double>*>(surf))->GetZ();
+    return depth.str();
   }
   else if (typeid(*surf) == typeid(RegularSurface<double>)) {
     std::string filename = grid_filename + surface_name;
-- 
2.43.0


From 8f83b497e2f3fde9fdf05542d53db921353ec0d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:33:09 +0000
Subject: [PATCH 069/139] fix: FindGridFileType looked at uninitialised memory
 after a file shorter than 3200 bytes

---
 src/nrlib/iotools/fileio.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nrlib/iotools/fileio.cpp b/src/nrlib/iotools/fileio.cpp
index 60044e2..be59d26 100644
--- a/src/nrlib/iotools/fileio.cpp
+++ b/src/nrlib/iotools/fileio.cpp
@@ -351,7 +351,7 @@ int NRLib::FindGridFileType(const std::string& filename )
     throw IOError("Error opening " + filename);
   }
 
-  char buffer[3201];
+  char buffer[3201] = {0};
   if (length > 161) {
     file.read(buffer, 3200);
     buffer[3200] = '\0';
-- 
2.43.0


From e21977c00370aab2494a5e7a2d2bddba1bada48f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:54:51 +0000
Subject: [PATCH 070/139] fix: Well's GetContValue and GetDiscValue abort
 instead of returning the missing code for an absent log or index

---
 src/nrlib/well/well.cpp | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/nrlib/well/well.cpp b/src/nrlib/well/well.cpp
index 18ba288..dd28f10 100644
--- a/src/nrlib/well/well.cpp
+++ b/src/nrlib/well/well.cpp
@@ -218,20 +218,18 @@ bool Well::IsMissing(int n)const
 int Well::GetDiscValue(size_t index, const std::string& logname) const
 {
   std::map<std::string, std::vector<int> >::const_iterator item = disc_log_.find(logname);
-  assert(item != disc_log_.end());
-  const std::vector<int>& log = item->second;
-  assert(index < log.size());
-  return log[index];
+  if (item == disc_log_.end() || index >= item->second.size())
+    return well_imissing_;
+  return item->second[index];
 }
 
 
 double Well::GetContValue(size_t index, const std::string& logname) const
 {
   std::map<std::string,std::vector<double> >::const_iterator item = cont_log_.find(logname);
-  assert(item != cont_log_.end());
-  const std::vector<double>& log = item->second;
-  assert(index < log.size());
-  return log[index];
+  if (item == cont_log_.end() || index >= item->second.size())
+    return well_rmissing_;
+  return item->second[index];
 }
 
 
-- 
2.43.0


From 91abddaf8b307b81f957c88ddffeb588754bafec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:54:51 +0000
Subject: [PATCH 071/139] fix: Well left its counts, position and deviation
 flag uninitialised

---
 src/nrlib/well/well.cpp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/nrlib/well/well.cpp b/src/nrlib/well/well.cpp
index dd28f10..fa54114 100644
--- a/src/nrlib/well/well.cpp
+++ b/src/nrlib/well/well.cpp
@@ -36,6 +36,11 @@
 using namespace NRLib;
 
 Well::Well()
+  : n_data_(0),
+    n_data_nonmissing_(0),
+    is_deviated_(false),
+    x_pos0_(0.0),
+    y_pos0_(0.0)
 {
   well_rmissing_ = -999.0;
   well_imissing_ = -999;
@@ -45,6 +50,11 @@ Well::Well()
 Well::Well(const std::string & name,
            double              rmissing,
            int                 imissing)
+  : n_data_(0),
+    n_data_nonmissing_(0),
+    is_deviated_(false),
+    x_pos0_(0.0),
+    y_pos0_(0.0)
 {
   well_name_ = name;
   well_rmissing_ = rmissing;
@@ -55,6 +65,11 @@ Well::Well(const std::string & name,
 Well::Well(const std::map<std::string,std::vector<double> > & cont_log,
            const std::map<std::string,std::vector<int> >    & disc_log,
            const std::string                                & well_name)
+  : n_data_(0),
+    n_data_nonmissing_(0),
+    is_deviated_(false),
+    x_pos0_(0.0),
+    y_pos0_(0.0)
 {
   cont_log_       = cont_log;
   disc_log_       = disc_log;
-- 
2.43.0


From 41c88c37ed32eef1a38fdf56627b6af2df6d5161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:55:18 +0000
Subject: [PATCH 072/139] fix: RMSWell took a log name followed by blanks for
 one with the previous log's unit

---
 src/nrlib/well/rmswell.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/nrlib/well/rmswell.cpp b/src/nrlib/well/rmswell.cpp
index 69e1c86..917f55e 100644
--- a/src/nrlib/well/rmswell.cpp
+++ b/src/nrlib/well/rmswell.cpp
@@ -75,6 +75,7 @@ RMSWell::RMSWell(const std::string& filename)
     lognames_[i+3] = NRLib::Uppercase(ReadNext<std::string>(ist, line));
 
     //token = ReadNext<std::string>(ist, line); //H Error if line only containts log-name (test_case 19).
+    token = ""; // Not set by ReadNextToken if there is none.
     ReadNextToken(ist, token, line);
 
     if (token != "") {
-- 
2.43.0


From 2d2909d24210d910115b4d47728816b016357456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:55:18 +0000
Subject: [PATCH 073/139] fix: RMSWell wrote outside its tables when the file
 gives a negative number of logs

---
 src/nrlib/well/rmswell.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/nrlib/well/rmswell.cpp b/src/nrlib/well/rmswell.cpp
index 917f55e..1fcb120 100644
--- a/src/nrlib/well/rmswell.cpp
+++ b/src/nrlib/well/rmswell.cpp
@@ -52,7 +52,10 @@ RMSWell::RMSWell(const std::string& filename)
  // getline(file,dummy);// Line may contain a dummy number
   //-----line shift
   DiscardRestOfLine(file, line, false);
-  nlog = ReadNext<int>(file, line);          // read number of logs
+  int nlog_in = ReadNext<int>(file, line);   // read number of logs
+  if (nlog_in < 0)
+    throw FileFormatError("Negative number of logs (" + ToString(nlog_in) + ") in well file " + filename + ".");
+  nlog = static_cast<size_t>(nlog_in);
   DiscardRestOfLine(file, line, false);
   lognames_.resize(nlog+3);
   lognames_[0] = "X";
-- 
2.43.0


From 66970aea3dd3db5fdfd92e4589b92a830deaa7bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:55:18 +0000
Subject: [PATCH 074/139] fix: RMSWell from a Well read past the end of a
 discrete log that is all missing and named the missing code

---
 src/nrlib/well/rmswell.cpp | 25 ++++---------------------
 1 file changed, 4 insertions(+), 21 deletions(-)

diff --git a/src/nrlib/well/rmswell.cpp b/src/nrlib/well/rmswell.cpp
index 1fcb120..a39d255 100644
--- a/src/nrlib/well/rmswell.cpp
+++ b/src/nrlib/well/rmswell.cpp
@@ -208,31 +208,14 @@ RMSWell::RMSWell(const Well& wellobj)
     scale_[i] ="scale1";
   }
 
-  size_t ndisc = nlog - k - 3;
-  std::vector<std::vector<int> > discvalues(ndisc);
-  i = 0;
-  size_t j;
-  size_t kk = 0;
-  bool found = false;
-  for (CI p = disclog.begin(); p != disclog.end(); ++p) {
-    while(wellobj.IsMissing((p->second)[kk]))
-      kk++;
-    discvalues[i].push_back((p->second)[kk]);
-
-    for (j = kk + 1; j < p->second.size(); j++) {
-      for (k = 0; k < discvalues[i].size(); k++)
-        if ((p->second)[j] == discvalues[i][k])
-          found = true;
-      if (found == false && (!wellobj.IsMissing((p->second)[j])))
-        discvalues[i].push_back((p->second)[j]);
-      found = false;
-    }
-  }
   ////Frode NB: M� se n�yere p� dette.
   typedef std::pair<int, std::string> pp;
   for (CI p = disclog.begin(); p !=disclog.end(); ++p) {
     std::string disc_name = p->first;
-    for (j = 0; j < p->second.size(); j++) {
+    discnames_[disc_name]; // Also when all values are missing
+    for (size_t j = 0; j < p->second.size(); j++) {
+      if (wellobj.IsMissing(p->second[j]))
+        continue;
       std::string identstr = ToString(p->second[j]);
       discnames_[disc_name].insert(pp(p->second[j], identstr));
     }
-- 
2.43.0


From 279b7f5d31bd014c3e2141b2395f57fe4d80ed7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:56:19 +0000
Subject: [PATCH 075/139] fix: RMSWell's WriteToFile and GetDiscNames read
 outside their tables after logs were added or removed

---
 src/nrlib/well/rmswell.cpp | 83 ++++++++++++++++++++++++++++----------
 1 file changed, 61 insertions(+), 22 deletions(-)

diff --git a/src/nrlib/well/rmswell.cpp b/src/nrlib/well/rmswell.cpp
index a39d255..c6b9faf 100644
--- a/src/nrlib/well/rmswell.cpp
+++ b/src/nrlib/well/rmswell.cpp
@@ -225,7 +225,10 @@ RMSWell::RMSWell(const Well& wellobj)
 const std::map<int, std::string>
 RMSWell::GetDiscNames(const std::string& log_name) const
 {
-  return (discnames_.find(log_name)->second);
+  std::map<std::string, std::map<int, std::string> >::const_iterator item = discnames_.find(log_name);
+  if (item == discnames_.end())
+    return Well::GetDiscNames(log_name); // Log added after the well was read
+  return item->second;
 }
 
 void RMSWell::WriteToFile(const std::string& filename)
@@ -239,34 +242,70 @@ void RMSWell::WriteToFile(const std::string& filename)
     << GetWellName() << " " << xpos0_ <<" " << ypos0_ << "\n"
     << GetNlog() - 3 << "\n";
 
+  // The logs of the file in their order, except removed ones, then those added since.
+  std::vector<std::string> names, units;
+  std::vector<bool>        discrete;
   size_t k = 0;
-  std::map<std::string, std::map<int, std::string> >::iterator iter = discnames_.begin();
+  for (size_t i = 0; i < lognames_.size(); i++) {
+    std::string unit;
+    if (i >= 3 && isDiscrete_[i] == false && k < unit_.size()) {
+      unit = unit_[k] + " " + scale_[k];
+      k++;
+    }
+    bool exists = isDiscrete_[i] ? HasDiscLog(lognames_[i]) : HasContLog(lognames_[i]);
+    for (size_t j = 0; j < names.size(); j++) {
+      if (names[j] == lognames_[i] && discrete[j] == isDiscrete_[i])
+        exists = false; // Already there
+    }
+    if (exists) {
+      names.push_back(lognames_[i]);
+      units.push_back(unit);
+      discrete.push_back(isDiscrete_[i]);
+    }
+  }
+  size_t n_known = names.size();
+  for (std::map<std::string, std::vector<int> >::const_iterator p = GetDiscLog().begin(); p != GetDiscLog().end(); ++p) {
+    bool known = false;
+    for (size_t j = 0; j < n_known; j++)
+      known = known || (names[j] == p->first && discrete[j]);
+    if (!known) {
+      names.push_back(p->first);
+      units.push_back("");
+      discrete.push_back(true);
+    }
+  }
+  for (std::map<std::string, std::vector<double> >::const_iterator p = GetContLog().begin(); p != GetContLog().end(); ++p) {
+    bool known = false;
+    for (size_t j = 0; j < n_known; j++)
+      known = known || (names[j] == p->first && !discrete[j]);
+    if (!known) {
+      names.push_back(p->first);
+      units.push_back("");
+      discrete.push_back(false);
+    }
+  }
+
   typedef std::map<int, std::string>::const_iterator ci;
-  for (size_t i = 0; i < GetNlog(); i++) {
-    if (lognames_[i] != "X" && lognames_[i] != "Y" && lognames_[i] != "Z") {
-      file<< lognames_[i] << " ";
-      iter = discnames_.find(lognames_[i]);
-      if (isDiscrete_[i]==true) {
-        file << "DISC" << " ";
-        for (ci p = iter->second.begin(); p !=iter->second.end();++p)
-          file << p->first << " " << p->second << " ";
-        file << "\n";
-       // ++iter;
-      }
-      else {
-        file<< unit_[k] << " " << scale_[k] <<"\n";
-        k++;
-      }
+  for (size_t i = 3; i < names.size(); i++) {
+    file << names[i] << " ";
+    if (discrete[i]) {
+      file << "DISC" << " ";
+      const std::map<int, std::string> disc = GetDiscNames(names[i]);
+      for (ci p = disc.begin(); p != disc.end(); ++p)
+        file << p->first << " " << p->second << " ";
+      file << "\n";
     }
+    else
+      file << units[i] << "\n";
   }
   file.precision(8);
-  size_t n = GetContLogLength(lognames_[0]);
+  size_t n = GetContLogLength(names[0]);
   for (size_t i = 0; i < n; i++) {
-    for (size_t j = 0; j < GetNlog(); j++) {
-      if (isDiscrete_[j]==true)
-        file << GetDiscValue(i, lognames_[j]) << " ";
+    for (size_t j = 0; j < names.size(); j++) {
+      if (discrete[j])
+        file << GetDiscValue(i, names[j]) << " ";
       else
-        file << GetContValue(i, lognames_[j]) << " ";
+        file << GetContValue(i, names[j]) << " ";
     }
     file << "\n";
   }
-- 
2.43.0


From b8f11d621836fb1287b94e185cd2f487229d3aa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:56:19 +0000
Subject: [PATCH 076/139] fix: NorsarWell dropped every second row of a log
 file below the last track point

---
 src/nrlib/well/norsarwell.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/nrlib/well/norsarwell.cpp b/src/nrlib/well/norsarwell.cpp
index 705381d..93b5248 100644
--- a/src/nrlib/well/norsarwell.cpp
+++ b/src/nrlib/well/norsarwell.cpp
@@ -320,7 +320,6 @@ NorsarWell::MergeLogs(const std::vector<std::vector<double> > & track_logs, int
       else
         mdp = 1;
     }
-    il++;
   }
 
   return(result);
-- 
2.43.0


From 8d25c4f65d3b6abeba0a52044587fcb2c5328d9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:57:11 +0000
Subject: [PATCH 077/139] fix: LasWell crashed on a data line of blanks

---
 src/nrlib/well/laswell.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/nrlib/well/laswell.cpp b/src/nrlib/well/laswell.cpp
index eccf3e3..c4e493f 100644
--- a/src/nrlib/well/laswell.cpp
+++ b/src/nrlib/well/laswell.cpp
@@ -462,9 +462,9 @@ LasWell::GetRecord(std:: ifstream           & fin,
                    std::vector<std::string> & record) const
 {
   std::string line;
-  while(line.empty()==true && fin.eof() == false)
+  while(NRLib::Chomp(line).empty()==true && fin.eof() == false)
     getline(fin,line);
-  if(line.empty() == true)
+  if(NRLib::Chomp(line).empty() == true)
     return(false);
 
   NRLib::Substitute(line, ",", " "); //Makes comma delimited space delimited.
-- 
2.43.0


From faba990a9c076ed03a5509b94a1526122b3a8113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:57:11 +0000
Subject: [PATCH 078/139] fix: LasWell crashed on a file without curves

---
 src/nrlib/well/laswell.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/nrlib/well/laswell.cpp b/src/nrlib/well/laswell.cpp
index c4e493f..acb2f29 100644
--- a/src/nrlib/well/laswell.cpp
+++ b/src/nrlib/well/laswell.cpp
@@ -200,6 +200,8 @@ LasWell::ReadHeader(const std::string        & filename,
     }
     if(curve_read == false)
       err_txt += "No ~CURVE INFORMATION given in LAS file "+filename+".\n";
+    else if(log_name_.empty())
+      err_txt += "No curves given under ~CURVE INFORMATION in LAS file "+filename+".\n";
     if(well_read == false)
       err_txt += "No ~WELL INFORMATION given in LAS file "+filename+".\n";
     if(version_read == false)
-- 
2.43.0


From 29b1725e8e8724cf48184c7f33e9057aca58dabe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:57:11 +0000
Subject: [PATCH 079/139] fix: LasWell accepted up to four bad records as zeros
 and wrote outside its logs after one of the wrong length

---
 src/nrlib/well/laswell.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/nrlib/well/laswell.cpp b/src/nrlib/well/laswell.cpp
index acb2f29..c21949c 100644
--- a/src/nrlib/well/laswell.cpp
+++ b/src/nrlib/well/laswell.cpp
@@ -422,6 +422,10 @@ LasWell::ReadLogs(std::ifstream                  & fin,
   std::vector<std::string> record;
   while(GetRecord(fin, log.size(), record) == true && n_errors < 5 && n_records < n_data) {
     n_records++;
+    if(n_data_given == false) {
+      for(size_t i=0;i<log.size();i++)
+        log[i].push_back(0);
+    }
     if(record.size() != log.size()) {
       n_errors++;
       tmp_err_txt += "Error in well "+GetWellName()+", record "+NRLib::ToString(n_records)+"("+log_name_[0]+"="+record[0]
@@ -429,8 +433,6 @@ LasWell::ReadLogs(std::ifstream                  & fin,
     }
     else {
       for(size_t i=0;i<log.size();i++) {
-        if(n_data_given == false)
-          log[i].push_back(0);
         try {
           log[i][n_records-1] = NRLib::ParseType<double>(record[i]);
         }
@@ -450,6 +452,8 @@ LasWell::ReadLogs(std::ifstream                  & fin,
     err_txt += "Wrong number of data records found in well "+GetWellName()+", found "+NRLib::ToString(n_records)
       +" while expecting "+NRLib::ToString(n_data)+".\n";
   }
+  else if(tmp_err_txt != "")
+    err_txt += tmp_err_txt;
   else {
     for(size_t i=0;i<log.size();i++) {
       AddContLog(log_name_[i],log[i]);
-- 
2.43.0


From 3de724f4356c3dfcfab3b35b89599f59939a95cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:57:11 +0000
Subject: [PATCH 080/139] fix: LasWell never finished reading a header with an
 unknown or repeated section

---
 src/nrlib/well/laswell.cpp | 28 ++++++++++++++++++++++------
 src/nrlib/well/laswell.hpp |  4 ++++
 2 files changed, 26 insertions(+), 6 deletions(-)

diff --git a/src/nrlib/well/laswell.cpp b/src/nrlib/well/laswell.cpp
index c21949c..e2f3452 100644
--- a/src/nrlib/well/laswell.cpp
+++ b/src/nrlib/well/laswell.cpp
@@ -158,24 +158,30 @@ LasWell::ReadHeader(const std::string        & filename,
       }
       else if (line[0] == '~') {         // Command trigger
         if (line[1] == 'V') {
-          if(version_read == true)
+          if(version_read == true) {
             err_txt += "~VERSION INFORMATION given more than once in file "+filename+".\n";
+            SkipSection(fin, line);
+          }
           else {
             version_read = true;
             ParseVersionInformation(fin, line, err_txt);
           }
         }
         else if (line[1] == 'W') {
-          if(well_read == true)
+          if(well_read == true) {
             err_txt += "~WELL INFORMATION given more than once in file "+filename+".\n";
+            SkipSection(fin, line);
+          }
           else {
             well_read = true;
             ParseWellInformation(fin, line, err_txt);
           }
         }
         else if (line[1] == 'C') {
-          if(curve_read == true)
+          if(curve_read == true) {
             err_txt += "~CURVE INFORMATION given more than once in file "+filename+".\n";
+            SkipSection(fin, line);
+          }
           else{
             curve_read = true;
             ParseCurveInformation(fin, line, err_txt);
@@ -189,8 +195,7 @@ LasWell::ReadHeader(const std::string        & filename,
           end_of_header = true;
         else {
           err_txt += "Invalid keyword \'~"+NRLib::ToString(line[1])+"\' has been encountered in LAS file "+filename+".\n";
-          std::vector<std::string> junk_info;
-          ParseInformation(junk_info, "", fin, line, err_txt);
+          SkipSection(fin, line);
         }
       }
       else {
@@ -222,7 +227,7 @@ LasWell::ParseInformation(std::vector<std::string>               & info,
 {
   if (info.size() == 0) {
     bool end_of_section = false;
-    while ( !fin.eof() && !end_of_section && err_txt == "") {
+    while ( !fin.eof() && !end_of_section) {
       getline (fin,line);
       line = NRLib::Chomp(line);
 
@@ -240,9 +245,20 @@ LasWell::ParseInformation(std::vector<std::string>               & info,
   }
   else {
     err_txt += "There is more than one "+text+" section present in well "+GetWellName()+".\n";
+    SkipSection(fin, line);
   }
 }
 
+void
+LasWell::SkipSection(std::ifstream & fin,
+                     std::string   & line) const
+{
+  do {
+    getline (fin,line);
+    line = NRLib::Chomp(line);
+  } while (!fin.eof() && line[0] != '~');
+}
+
 void
 LasWell::ParseVersionInformation(std::ifstream & fin,
                                  std::string   & line,
diff --git a/src/nrlib/well/laswell.hpp b/src/nrlib/well/laswell.hpp
index 62fbf3c..d68bea0 100644
--- a/src/nrlib/well/laswell.hpp
+++ b/src/nrlib/well/laswell.hpp
@@ -75,6 +75,10 @@ private:
                         std::string                            & line,
                         std::string                            & err_txt);
 
+  /// Read past the current section, up to the next keyword or the end of the file.
+  void SkipSection(std::ifstream & fin,
+                   std::string   & line) const;
+
   void ParseVersionInformation(std::ifstream & fin,
                                std::string   & line,
                                std::string   & err_txt);
-- 
2.43.0


From ceeb0ddb38f266fb30b78f05ffb699d8c829a507 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:57:11 +0000
Subject: [PATCH 081/139] fix: LasWell lost the well name, the position and the
 other information when a well was written again

---
 src/nrlib/well/laswell.cpp | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/nrlib/well/laswell.cpp b/src/nrlib/well/laswell.cpp
index e2f3452..8cbfbbd 100644
--- a/src/nrlib/well/laswell.cpp
+++ b/src/nrlib/well/laswell.cpp
@@ -346,6 +346,7 @@ LasWell::ParseWellToken(const std::string & token,
   if(token == "WELL") {
     if(value.empty() == false)
       SetWellName(value);
+    well_info_.push_back(line);
   }
 
   else if(token == "STRT" || token == "STOP" || token == "STEP" ||
@@ -362,10 +363,14 @@ LasWell::ParseWellToken(const std::string & token,
           depth_increment_ = val;
         else if(token == "NULL")
           SetMissing(val);
-        else if(token == "XWELL")
+        else if(token == "XWELL") {
           SetXPos0(val);
-        else if(token == "YWELL")
+          well_info_.push_back(line);
+        }
+        else if(token == "YWELL") {
           SetYPos0(val);
+          well_info_.push_back(line);
+        }
       }
       catch(NRLib::Exception & e) {
         err_txt += std::string(e.what())+" for keyword "+token+" under ~WELL INFORMATION in well "+GetWellName();
@@ -565,6 +570,12 @@ void LasWell::WriteToFile(const std::string              & filename,
   file << "\n";
 
 
+  if (other_info_.size() > 0) {
+    file << "~Other information\n";
+    for(size_t i=0;i<other_info_.size();i++)
+      file << other_info_[i] << "\n";
+  }
+
   // Curve information
   // LAS only supports continuous logs...
 
-- 
2.43.0


From d5a3e9df759a2713f87ea2c897f352cb0ddf634e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:57:11 +0000
Subject: [PATCH 082/139] fix: LasWell allocated a negative number of records
 for a negative step down a well

---
 src/nrlib/well/laswell.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nrlib/well/laswell.cpp b/src/nrlib/well/laswell.cpp
index 8cbfbbd..aaeda86 100644
--- a/src/nrlib/well/laswell.cpp
+++ b/src/nrlib/well/laswell.cpp
@@ -430,7 +430,7 @@ LasWell::ReadLogs(std::ifstream                  & fin,
   size_t n_data = 2000000000; //Anything more than this will easily give indexing problems, so ok upper limit.
   bool n_data_given = false;
   if(IsMissing(start_depth_) == false && IsMissing(stop_depth_) == false && IsMissing(depth_increment_) == false &&
-     stop_depth_ > start_depth_ && depth_increment_ != 0) {
+     stop_depth_ > start_depth_ && depth_increment_ > 0) {
     n_data_given = true;
     n_data = static_cast<size_t>(floor(0.5+(stop_depth_ - start_depth_)/depth_increment_))+1;
     for(size_t i=0;i<log.size();i++)
-- 
2.43.0


From cc3555d1bcd83328c24cbc826c028e58e0afb663 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:57:11 +0000
Subject: [PATCH 083/139] fix: LasWell's WriteToFile read outside its tables
 after logs were added or removed

---
 src/nrlib/well/laswell.cpp | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/nrlib/well/laswell.cpp b/src/nrlib/well/laswell.cpp
index aaeda86..2ed80ef 100644
--- a/src/nrlib/well/laswell.cpp
+++ b/src/nrlib/well/laswell.cpp
@@ -579,9 +579,21 @@ void LasWell::WriteToFile(const std::string              & filename,
   // Curve information
   // LAS only supports continuous logs...
 
+  // The logs in their order, except removed ones, then those added by AddContLog.
+  std::vector<std::string> names;
   file << "~Curve information\n";
-  for (size_t i = 0; i < GetNContLog(); ++i) {
-    WriteLasLine(file, log_name_[i], log_unit_[i], "", log_comment_[i]);
+  for (size_t i = 0; i < log_name_.size(); ++i) {
+    if (HasContLog(log_name_[i]) && std::find(names.begin(), names.end(), log_name_[i]) == names.end()) {
+      WriteLasLine(file, log_name_[i], log_unit_[i], "", log_comment_[i]);
+      names.push_back(log_name_[i]);
+    }
+  }
+  const std::map<std::string, std::vector<double> > & all_logs = GetContLog();
+  for (std::map<std::string, std::vector<double> >::const_iterator it = all_logs.begin(); it != all_logs.end(); ++it) {
+    if (std::find(names.begin(), names.end(), it->first) == names.end()) {
+      WriteLasLine(file, it->first, "", "", "");
+      names.push_back(it->first);
+    }
   }
   file << "\n";
 
@@ -590,7 +602,7 @@ void LasWell::WriteToFile(const std::string              & filename,
 
   std::vector<const std::vector<double> *> logs(GetNContLog());
   for (size_t i = 0; i < GetNContLog(); ++i) {
-    logs[i] = &(GetContLog(log_name_[i]));
+    logs[i] = &(GetContLog(names[i]));
   }
 
   // We don't support wrapped output yet.
-- 
2.43.0


From e836d9187a983d15cc324d9be9fe818a55819ce5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:04:43 +0000
Subject: [PATCH 084/139] fix: SegyGeometry's FindIndex accepted the inline and
 crossline just outside the grid

---
 src/nrlib/segy/segygeometry.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nrlib/segy/segygeometry.cpp b/src/nrlib/segy/segygeometry.cpp
index f3e80e0..5d73151 100644
--- a/src/nrlib/segy/segygeometry.cpp
+++ b/src/nrlib/segy/segygeometry.cpp
@@ -938,7 +938,7 @@ SegyGeometry::FindIndex(int IL, int XL, size_t &i, size_t &j) const
     std::swap(ii, jj);
   }
 
-  if (ii < 0 || jj < 0 || ii > static_cast<int>(nx_) || jj > static_cast<int>(ny_))
+  if (ii < 0 || jj < 0 || ii >= static_cast<int>(nx_) || jj >= static_cast<int>(ny_))
     throw Exception("Indexes (i, j) = (" + NRLib::ToString(ii) + ", " + NRLib::ToString(jj) + ") outside grid "
                     "found for (IL, XL) = (" + NRLib::ToString(IL) + ", " + NRLib::ToString(XL) + ")");
 
-- 
2.43.0


From b8d7250b676b6e4582a07e20eeed22ae438837f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:04:43 +0000
Subject: [PATCH 085/139] fix: SegyGeometry without inline and crossline
 information swapped the indexes of the two axes

---
 src/nrlib/segy/segygeometry.cpp | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/nrlib/segy/segygeometry.cpp b/src/nrlib/segy/segygeometry.cpp
index 5d73151..8bc1cef 100644
--- a/src/nrlib/segy/segygeometry.cpp
+++ b/src/nrlib/segy/segygeometry.cpp
@@ -768,12 +768,12 @@ SegyGeometry::SegyGeometry(double x0, double y0, double dx, double dy, size_t nx
   IL0_         = 0;
   XL0_         = 0;
   minIL_       = 0;
-  maxIL_       = static_cast<int>(nx - 1);
+  maxIL_       = static_cast<int>(ny - 1);
   ILStep_      = 1;
   minXL_       = 0;
-  maxXL_       = static_cast<int>(ny - 1);
+  maxXL_       = static_cast<int>(nx - 1);
   XLStep_      = 1;
-  firstAxisIL_ = true;
+  firstAxisIL_ = false; // IL increases along y, see above.
 }
 
 SegyGeometry::SegyGeometry(double x0, double y0, double dx, double dy, size_t nx, size_t ny,
@@ -819,12 +819,12 @@ SegyGeometry::SegyGeometry(const RegularSurface<double> & surf)
   IL0_         = 0;
   XL0_         = 0;
   minIL_       = 0;
-  maxIL_       = static_cast<int>(nx_ - 1);
+  maxIL_       = static_cast<int>(ny_ - 1);
   ILStep_      = 1;
   minXL_       = 0;
-  maxXL_       = static_cast<int>(ny_ - 1);
+  maxXL_       = static_cast<int>(nx_ - 1);
   XLStep_      = 1;
-  firstAxisIL_ = true;
+  firstAxisIL_ = false; // IL increases along y, see above.
 }
 
 SegyGeometry::SegyGeometry(const RegularSurfaceRotated<double> & surf)
@@ -847,12 +847,12 @@ SegyGeometry::SegyGeometry(const RegularSurfaceRotated<double> & surf)
   IL0_         = 0;
   XL0_         = 0;
   minIL_       = 0;
-  maxIL_       = static_cast<int>(nx_ - 1);
+  maxIL_       = static_cast<int>(ny_ - 1);
   ILStep_      = 1;
   minXL_       = 0;
-  maxXL_       = static_cast<int>(ny_ - 1);
+  maxXL_       = static_cast<int>(nx_ - 1);
   XLStep_      = 1;
-  firstAxisIL_ = true;
+  firstAxisIL_ = false; // IL increases along y, see above.
 }
 
 SegyGeometry::SegyGeometry(const SegyGeometry *geometry)
-- 
2.43.0


From 022a13b3b738ef757d1d328dd2eaaeb7d1127b0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:20:01 +0000
Subject: [PATCH 086/139] fix: SegyGeometry found no direction for a crossline
 whose inlines are given in descending order

---
 src/nrlib/segy/segygeometry.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nrlib/segy/segygeometry.cpp b/src/nrlib/segy/segygeometry.cpp
index 8bc1cef..5622e87 100644
--- a/src/nrlib/segy/segygeometry.cpp
+++ b/src/nrlib/segy/segygeometry.cpp
@@ -207,7 +207,7 @@ SegyGeometry::SegyGeometry(std::vector<SegYTrace *> & traces,
     }
     else {
       if(dXL1 == 0 && dXL2 == 0) { //Single crossline or single trace.
-        if(dIL1 > 0) {
+        if(dIL1 != 0) {
           dxIL = (x1-x0)/dIL1;
           dyIL = (y1-y0)/dIL1;
         }
-- 
2.43.0


From 6eb78d97e266d707b5248e47992ce1614c520a49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:42:03 +0000
Subject: [PATCH 087/139] fix: SegyGeometry divided by zero when its second
 corner is on a lower crossline than the first trace

---
 src/nrlib/segy/segygeometry.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nrlib/segy/segygeometry.cpp b/src/nrlib/segy/segygeometry.cpp
index 5622e87..78f6f1e 100644
--- a/src/nrlib/segy/segygeometry.cpp
+++ b/src/nrlib/segy/segygeometry.cpp
@@ -156,7 +156,7 @@ SegyGeometry::SegyGeometry(std::vector<SegYTrace *> & traces,
 
     if(dist2 > sqrt(dist1sq)+0.005) { //Standard case, not a simple straight line along XL, IL or diagonally..
       double denominator;
-      if(dXL2 > 0) { //Rarely fails, but may happen with diagonal line.
+      if(dXL2 != 0) { //Rarely fails, but may happen with diagonal line.
         denominator = dIL1-(dXL1/dXL2)*dIL2;
         dxIL = (x1 - x0 - dXL1/dXL2*(x2-x0))/denominator;
         dxXL = (x2 - x0 - dxIL*dIL2        )/dXL2;
-- 
2.43.0


From e6e7352d69830f385ca6122d7bffdd03ecf232eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:42:03 +0000
Subject: [PATCH 088/139] fix: SegY dropped the fraction of a millisecond of
 the sampling interval

---
 src/nrlib/segy/segy.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/nrlib/segy/segy.cpp b/src/nrlib/segy/segy.cpp
index fd076dd..b832018 100644
--- a/src/nrlib/segy/segy.cpp
+++ b/src/nrlib/segy/segy.cpp
@@ -887,7 +887,7 @@ SegY::ReadHeader(TraceHeader & header)
     duplicateHeader = false;
     break;
   }
-  if (header.GetDt()/1000 != dz_) {
+  if (header.GetDt()/1000.0 != dz_) {
     if(dz_ == 0)
       dz_ = static_cast<double>(header.GetDt()/1000.0);
     else if(header.GetDt() > 0) {
@@ -1193,7 +1193,7 @@ SegY::ReadAndSetBinaryHeader(NRLib::BigFile& file)
 {
   binary_header_ = new BinaryHeader(file);
   nz_ = binary_header_->GetHns();
-  dz_ = static_cast<double>(binary_header_->GetHdt() / 1000);
+  dz_ = static_cast<double>(binary_header_->GetHdt() / 1000.0);
   if (binary_header_->GetFormat() == 3)
     datasize_ = 2;
   else
-- 
2.43.0


From 4f847bcfe28200c0e8e6e2ca61d87d5ab0fd2a2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:42:03 +0000
Subject: [PATCH 089/139] fix: SegY's ReadAllTraces found no valid traces in a
 file with a single trace

---
 src/nrlib/segy/segy.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nrlib/segy/segy.cpp b/src/nrlib/segy/segy.cpp
index b832018..cc4ee16 100644
--- a/src/nrlib/segy/segy.cpp
+++ b/src/nrlib/segy/segy.cpp
@@ -697,7 +697,7 @@ SegY::ReadAllTraces(const Volume * volume,
   }
 
   int count = 0;
-  for (unsigned int i=1 ; i<traces_.size() ; i++)
+  for (unsigned int i=0 ; i<traces_.size() ; i++)
     if (traces_[i] != NULL)
       count++;
   if (count == 0)
-- 
2.43.0


From 76bd79c8cacea29480197760faa68406f4b81d35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:42:03 +0000
Subject: [PATCH 090/139] fix: SegY rejected the right trace header format
 since it solved the wrong equations for the trace spacing

---
 src/nrlib/segy/segy.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/nrlib/segy/segy.cpp b/src/nrlib/segy/segy.cpp
index cc4ee16..b1f85b3 100644
--- a/src/nrlib/segy/segy.cpp
+++ b/src/nrlib/segy/segy.cpp
@@ -1921,7 +1921,7 @@ void SegY::FindDeltaILXL(const TraceHeader& t1, const TraceHeader& t2, const Tra
   xl3 = t3.GetCrossline();
 
   double teller = (xl2 - xl1)*(x3 - x1) - (xl3 - xl1)*(x2 - x1);
-  double nevner = (xl2 - xl1)*(il3 - il1) + (xl3 - xl1)*(il2 - il1);
+  double nevner = (xl2 - xl1)*(il3 - il1) - (xl3 - xl1)*(il2 - il1);
   dil = teller/nevner;
-  dxl = ((x2-x1) - (il2-il1)*dil) / (xl2 - xl1);
+  dxl = ((il3 - il1)*(x2 - x1) - (il2 - il1)*(x3 - x1))/nevner;
 }
-- 
2.43.0


From 74b974bea4a6b3e28ff4b90e6dd34254d6a19e2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:42:19 +0000
Subject: [PATCH 091/139] fix: TraceHeader wrote coordinates truncated, not
 rounded, to the unit of the file

---
 src/nrlib/segy/traceheader.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/nrlib/segy/traceheader.cpp b/src/nrlib/segy/traceheader.cpp
index 794ae2d..ac6903c 100644
--- a/src/nrlib/segy/traceheader.cpp
+++ b/src/nrlib/segy/traceheader.cpp
@@ -21,6 +21,7 @@
 
 #include "traceheader.hpp"
 
+#include <cmath>
 #include <cstdio>
 #include <cstring>
 #include <sstream>
@@ -509,10 +510,10 @@ int TraceHeader::Write(NRLib::BigFile& outFile)
     WriteInt16BE(&buffer[format_.GetScalCoLoc() - 1], scalcoinitial_);
 
   if (format_.GetUtmxLoc() > 0)
-    WriteInt32BE(&buffer[format_.GetUtmxLoc() - 1], static_cast<int>(utmx_));
+    WriteInt32BE(&buffer[format_.GetUtmxLoc() - 1], static_cast<int>(std::floor(utmx_ + 0.5)));
 
   if (format_.GetUtmyLoc() > 0)
-    WriteInt32BE(&buffer[format_.GetUtmyLoc() - 1], static_cast<int>(utmy_));
+    WriteInt32BE(&buffer[format_.GetUtmyLoc() - 1], static_cast<int>(std::floor(utmy_ + 0.5)));
 
   if (format_.GetInlineLoc() > 0)
     WriteInt32BE(&buffer[format_.GetInlineLoc() - 1], inline_);
-- 
2.43.0


From 56d2cdd7b0d01a02dfb828bc30aff79a714e1707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:42:19 +0000
Subject: [PATCH 092/139] fix: SegY wrote the sampling interval truncated to a
 microsecond less

---
 src/nrlib/segy/commonheaders.cpp | 2 +-
 src/nrlib/segy/segy.cpp          | 8 ++++----
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/nrlib/segy/commonheaders.cpp b/src/nrlib/segy/commonheaders.cpp
index 92abd48..0f2e348 100644
--- a/src/nrlib/segy/commonheaders.cpp
+++ b/src/nrlib/segy/commonheaders.cpp
@@ -230,7 +230,7 @@ void BinaryHeader::Write(NRLib::BigFile& file, double dz, size_t nz, short n_sam
   NRLib::WriteInt32BE(&buffer[8], 1);             // Reel number
   NRLib::WriteInt16BE(&buffer[12], n_sam_per_ens);
   NRLib::WriteInt16BE(&buffer[14], n_sam_per_ens);
-  NRLib::WriteInt16BE(&buffer[16], static_cast<short>(1000 * dz));
+  NRLib::WriteInt16BE(&buffer[16], static_cast<short>(1000 * dz + 0.5));
   NRLib::WriteInt16BE(&buffer[20], static_cast<short>(nz));
   NRLib::WriteInt16BE(&buffer[24], 5);             // Format - IEEE 4-byte floating point
   NRLib::WriteInt16BE(&buffer[26], n_sam_per_ens);
diff --git a/src/nrlib/segy/segy.cpp b/src/nrlib/segy/segy.cpp
index b1f85b3..3235735 100644
--- a/src/nrlib/segy/segy.cpp
+++ b/src/nrlib/segy/segy.cpp
@@ -1226,7 +1226,7 @@ SegY::StoreTrace(double x, double y, const std::vector<float> &data, const Volum
   assert(geometry_ != 0);
  // TraceHeader header(trace_header_format_);
  // header.SetNSamples(nz_);
- // header.SetDt(static_cast<unsigned short>(dz_*1000));
+ // header.SetDt(static_cast<unsigned short>(dz_*1000 + 0.5));
  // header.SetScalCo(scalcoinitial);
  // header.SetUtmx(x);
  // header.SetUtmy(y);
@@ -1283,7 +1283,7 @@ SegY::WriteTrace(double x, double y, int IL, int XL, const std::vector<float> &d
   assert(data.size() == nz_);
   TraceHeader header(trace_header_format_);
   header.SetNSamples(nz_);
-  header.SetDt(static_cast<unsigned short>(dz_ * 1000));
+  header.SetDt(static_cast<unsigned short>(dz_*1000 + 0.5));
   header.SetStartTime(static_cast<float>(z0_));
   header.SetScalCo(scalcoinitial);
   header.SetOffset(offset);
@@ -1305,7 +1305,7 @@ SegY::WriteTrace(double x, double y, const std::vector<float> &data, const Volum
   assert(geometry_ != 0);
   TraceHeader header(trace_header_format_);
   header.SetNSamples(nz_);
-  header.SetDt(static_cast<unsigned short>(dz_*1000));
+  header.SetDt(static_cast<unsigned short>(dz_*1000 + 0.5));
   header.SetStartTime(static_cast<float>(z0_));
   header.SetScalCo(scalcoinitial);
   header.SetOffset(offset);
@@ -1438,7 +1438,7 @@ SegY::WriteAllTracesToFile(short scalcoinitial)
       y = traces_[i]->GetY();
       TraceHeader header(trace_header_format_);
       header.SetNSamples(nz_);
-      header.SetDt(static_cast<unsigned short>(dz_*1000));
+      header.SetDt(static_cast<unsigned short>(dz_*1000 + 0.5));
       header.SetScalCo(scalcoinitial);
       header.SetUtmx(static_cast<double>(x));
       header.SetUtmy(static_cast<double>(y));
-- 
2.43.0


From 724d2da153e531cdc0cd7c0732bfb2293d2d94b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:42:19 +0000
Subject: [PATCH 093/139] fix: TraceHeader wrote uninitialised fields, such as
 the offset of traces that are stored first and then written

---
 src/nrlib/segy/traceheader.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/nrlib/segy/traceheader.cpp b/src/nrlib/segy/traceheader.cpp
index ac6903c..65810d3 100644
--- a/src/nrlib/segy/traceheader.cpp
+++ b/src/nrlib/segy/traceheader.cpp
@@ -418,7 +418,16 @@ TraceHeader::TraceHeader(const TraceHeaderFormat& format)
   : format_(format),
     status_(0),
     scal_co_(1),
-    scalcoinitial_(1)
+    scalcoinitial_(1),
+    utmx_(0),
+    utmy_(0),
+    inline_(0),
+    crossline_(0),
+    start_time_(0),
+    ns_(0),
+    dt_(0),
+    offset_(0),
+    useBinaryInline(false)
 {
   memset(buffer_, 0, 240);
   rmissing_ = RMISSING;
-- 
2.43.0


From ec6422254491a4f635557b3051b8f872b3fd835f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:42:19 +0000
Subject: [PATCH 094/139] fix: SegY from a StormContGrid wrote an uninitialised
 number of traces per ensemble

---
 src/nrlib/segy/segy.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/nrlib/segy/segy.cpp b/src/nrlib/segy/segy.cpp
index 3235735..b03ec28 100644
--- a/src/nrlib/segy/segy.cpp
+++ b/src/nrlib/segy/segy.cpp
@@ -250,6 +250,7 @@ SegY::SegY(const StormContGrid     * storm_grid,
   geometry_               = NULL;
   binary_header_          = NULL;
   sampling_inconsistency_ = false;
+  n_traces_per_ensamble_  = 1;
 
   int i,k,j;
   TextualHeader header = TextualHeader::standardHeader();
-- 
2.43.0


From 6924d75a43292bdcd3d4d68783f894b061b5eb11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:45:18 +0000
Subject: [PATCH 095/139] fix: TraceHeader accepted a part of a header at the
 end of a truncated SEG-Y file

---
 src/nrlib/segy/traceheader.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nrlib/segy/traceheader.cpp b/src/nrlib/segy/traceheader.cpp
index 65810d3..b25a0e9 100644
--- a/src/nrlib/segy/traceheader.cpp
+++ b/src/nrlib/segy/traceheader.cpp
@@ -437,7 +437,7 @@ TraceHeader::TraceHeader(const TraceHeaderFormat& format)
 
 void TraceHeader::Read(NRLib::BigFile& in_file)
 {
-  if (!(in_file.read(buffer_,240))) {
+  if (in_file.read(buffer_,240) < 240) {
     // end of file
     throw EndOfFile();
   }
-- 
2.43.0


From 37c111f7e49beacb659fe81a714440d4147dbdbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:49:50 +0000
Subject: [PATCH 096/139] fix: binary values read with BigFile were accepted
 when the file ended in the middle of them

---
 src/nrlib/iotools/fileio.hpp | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/nrlib/iotools/fileio.hpp b/src/nrlib/iotools/fileio.hpp
index 4da0900..1b7f39b 100644
--- a/src/nrlib/iotools/fileio.hpp
+++ b/src/nrlib/iotools/fileio.hpp
@@ -580,7 +580,7 @@ short NRLib::ReadBinaryShort(F& stream,
   unsigned short us;
   char buffer[2];
 
-  if (!stream.read(buffer, 2)) {
+  if (!stream.read(buffer, 2) || !stream.good()) {
     if (stream.eof())
       throw EndOfFile();
     else
@@ -642,7 +642,7 @@ I NRLib::ReadBinaryShortArray(F& stream,
   std::vector<std::uint16_t> buffer(n);
 
   if (!stream.read(reinterpret_cast<char *>(&buffer[0]),
-                   static_cast<std::streamsize>(2 * n))) {
+                   static_cast<std::streamsize>(2 * n)) || !stream.good()) {
     throw Exception("Error reading from stream (f).");
   }
 
@@ -700,7 +700,7 @@ int NRLib::ReadBinaryInt(F& stream,
   unsigned int ui;
   char buffer[4];
 
-  if (!stream.read(buffer, 4)) {
+  if (!stream.read(buffer, 4) || !stream.good()) {
     if (stream.eof())
       throw EndOfFile();
     else
@@ -762,7 +762,7 @@ I NRLib::ReadBinaryIntArray(F& stream,
   std::vector<std::uint32_t> buffer(n);
 
   if (!stream.read(reinterpret_cast<char *>(&buffer[0]),
-                   static_cast<std::streamsize>(4 * n))) {
+                   static_cast<std::streamsize>(4 * n)) || !stream.good()) {
     throw Exception("Error reading from stream (g).");
   }
 
@@ -820,7 +820,7 @@ float NRLib::ReadBinaryFloat(F& stream,
   float f;
   char buffer[4];
 
-  if (!stream.read(buffer, 4)) {
+  if (!stream.read(buffer, 4) || !stream.good()) {
     if (stream.eof())
       throw EndOfFile();
     else
@@ -882,7 +882,7 @@ I NRLib::ReadBinaryFloatArray(F& stream,
 {
   std::vector<std::uint32_t> buffer(n);
 
-  if (!stream.read(reinterpret_cast<char *>(&buffer[0]), static_cast<std::streamsize>(4*n))) {
+  if (!stream.read(reinterpret_cast<char *>(&buffer[0]), static_cast<std::streamsize>(4*n)) || !stream.good()) {
     throw Exception("Error reading from stream (h).");
   }
 
@@ -945,7 +945,7 @@ double NRLib::ReadBinaryDouble(F& stream,
   double d;
   char buffer[8];
 
-  if (!stream.read(buffer, 8)) {
+  if (!stream.read(buffer, 8) || !stream.good()) {
     if (stream.eof())
       throw EndOfFile();
     else
@@ -1007,7 +1007,7 @@ I NRLib::ReadBinaryDoubleArray(F& stream,
   std::vector<std::uint64_t> buffer(n);
 
   if (!stream.read(reinterpret_cast<char *>(&buffer[0]),
-                   static_cast<std::streamsize>(8 * n))) {
+                   static_cast<std::streamsize>(8 * n)) || !stream.good()) {
     throw Exception("Error reading from stream (i).");
   }
 
@@ -1073,7 +1073,7 @@ I NRLib::ReadBinaryIbmFloatArray(F& stream,
   std::vector<std::uint32_t> buffer(n);
 
   std::string error;
-  if (!stream.read(reinterpret_cast<char *>(&buffer[0]), static_cast<std::streamsize>(4*n))) {
+  if (!stream.read(reinterpret_cast<char *>(&buffer[0]), static_cast<std::streamsize>(4*n)) || !stream.good()) {
     if (stream.eof())
       error = "Error reading binary IBM float array. Trying to read 4*" + NRLib::ToString(n) + " elements when end-of-file was reached.\n";
     else {
@@ -1138,7 +1138,7 @@ float NRLib::ReadBinaryIbmFloat(F& stream,
   float f = 0.0;
   char buffer[4];
 
-  if (!stream.read(buffer, 4)) {
+  if (!stream.read(buffer, 4) || !stream.good()) {
     if (stream.eof())
       throw EndOfFile();
     else
-- 
2.43.0


From 6851c82d40db62f96d3e4c2523b9a2181ce5fd62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:50:18 +0000
Subject: [PATCH 097/139] fix: the textual header of SEG-Y files was written
 with its EBCDIC characters replaced and shifted

---
 src/nrlib/segy/commonheaders.cpp | 99 ++++----------------------------
 1 file changed, 11 insertions(+), 88 deletions(-)

diff --git a/src/nrlib/segy/commonheaders.cpp b/src/nrlib/segy/commonheaders.cpp
index 0f2e348..8bcd7ef 100644
--- a/src/nrlib/segy/commonheaders.cpp
+++ b/src/nrlib/segy/commonheaders.cpp
@@ -24,6 +24,7 @@
 #include <cstdio>
 #include <cstring>
 #include "../iotools/fileio.hpp"
+#include "../iotools/stringtools.hpp"
 
 using namespace NRLib;
 /// Table with EBCDIC-values for the different ASCII values.
@@ -57,96 +58,18 @@ static unsigned char ascii2ebcdic(unsigned char c)
   return transtab[c];
 }
 
+/// 40 lines of 80 characters.
 static void emptyHeader(std::string &ebcdicH)
 {
   ebcdicH = "";
-   ebcdicH+=  "�@�@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@";
-  ebcdicH+=  "�@�@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@";
-  ebcdicH+= "�@�@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@";
-  ebcdicH+= "�@�@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@";
-  ebcdicH+= "�@�@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@";
-  ebcdicH+= "�@�@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@";
-  ebcdicH+= "�@�@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@";
-  ebcdicH+= "�@�@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@";
-  ebcdicH+= "�@�@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@";
-  ebcdicH+= "���@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@";
-  ebcdicH+= "���@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@";
-  ebcdicH+= "���@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@";
-  ebcdicH+= "���@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@";
-  ebcdicH+="���@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@";
-  ebcdicH+="���@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@";
-  ebcdicH+="���@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@";
-  ebcdicH+="���@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@";
-  ebcdicH+="���@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@";
-  ebcdicH+="���@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@";
-  ebcdicH+="���@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@";
-  ebcdicH+="���@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@";
-  ebcdicH+="���@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@";
-  ebcdicH+="���@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@";
-  ebcdicH+="���@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@";
-  ebcdicH+="���@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@";
-  ebcdicH+="���@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@";
-  ebcdicH+="���@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@";
-  ebcdicH+="���@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@";
-  ebcdicH+="���@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@";
-  ebcdicH+="���@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@";
-  ebcdicH+="���@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@";
-  ebcdicH+="���@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@";
-  ebcdicH+="���@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@";
-  ebcdicH+="���@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@";
-  ebcdicH+="���@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@";
-  ebcdicH+="���@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@";
-  ebcdicH+="���@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@";
-  ebcdicH+="���@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@";
-  ebcdicH+="���@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@";
-  ebcdicH+="���@���@������@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@";
-  ebcdicH+='@';
-}
-
-static void oldHeader(std::string &ebcdicH)
-{
-  ebcdicH = "";
-  ebcdicH+= "�@�@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@";
-  ebcdicH+= "�@�@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@";
-  ebcdicH+= "�@�@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@";
-  ebcdicH+= "�@�@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@";
-  ebcdicH+= "�@�@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@";
-  ebcdicH+= "�@�@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@";
-  ebcdicH+= "�@�@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@";
-  ebcdicH+= "�@�@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@";
-  ebcdicH+= "�@�@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@";
-  ebcdicH+= "���@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@";
-  ebcdicH+= "���@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@";
-  ebcdicH+= "���@@@@@@@@@����@����@����@���@�������@��@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@";
-  ebcdicH+= "���@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@";
-  ebcdicH+= "���@@@@@@@@@���@�����@�������@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@";
-  ebcdicH+= "���@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@";
-  ebcdicH+="���@@@@@@@@@���������@��@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@";
-  ebcdicH+="���@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@";
-  ebcdicH+="���@@@@@@@@@������@�����@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@";
-  ebcdicH+="���@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@";
-  ebcdicH+="���@@@@@@@@@����@�����@����������@@@@@@@@@@@���@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@";
-  ebcdicH+="���@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@";
-  ebcdicH+="���@@@@@@@@@���@�����������@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@";
-  ebcdicH+="���@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@";
-  ebcdicH+="���@@@@@@@@@��@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@";
-  ebcdicH+="���@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@";
-  ebcdicH+="���@@@@@@@@@���@���������@���������@������@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@";
-  ebcdicH+="���@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@";
-  ebcdicH+="���@@@@@@@@@����@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@";
-  ebcdicH+="���@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@";
-  ebcdicH+="���@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@";
-  ebcdicH+="���@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@";
-  ebcdicH+="���@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@";
-  ebcdicH+="���@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@";
-  ebcdicH+="���@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@";
-  ebcdicH+="���@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@";
-  ebcdicH+="���@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@";
-  ebcdicH+="���@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@";
-  ebcdicH+="���@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@";
-  ebcdicH+="���@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@";
-  ebcdicH+="���@���@������@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@@";
-  ebcdicH+="@";
+  for (int i = 1; i <= 40; ++i) {
+    std::string line = (i < 10 ? "C " : "C") + NRLib::ToString(i);
+    if (i == 40)
+      line += " END EBCDIC";
+    line.resize(80, ' ');
+    for (size_t j = 0; j < line.size(); ++j)
+      ebcdicH += static_cast<char>(ascii2ebcdic(line[j]));
+  }
 }
 
 TextualHeader::TextualHeader()
@@ -158,7 +81,7 @@ TextualHeader::TextualHeader()
 TextualHeader TextualHeader::standardHeader()
 {
   TextualHeader header;
-  oldHeader(header.buffer_);
+  emptyHeader(header.buffer_);
   return header;
 }
 
-- 
2.43.0


From a4e75b0838053c556da94038620926dc6c882d13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:50:18 +0000
Subject: [PATCH 098/139] fix: TraceHeader did not recognise a repeated textual
 header in a SEG-Y file

---
 src/nrlib/segy/traceheader.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/nrlib/segy/traceheader.cpp b/src/nrlib/segy/traceheader.cpp
index b25a0e9..f4d9e79 100644
--- a/src/nrlib/segy/traceheader.cpp
+++ b/src/nrlib/segy/traceheader.cpp
@@ -442,8 +442,10 @@ void TraceHeader::Read(NRLib::BigFile& in_file)
     throw EndOfFile();
   }
 
-  if (buffer_[0] == '�' && buffer_[1] == '@' && buffer_[2] == '�'
-      && buffer_[80] == '�' && buffer_[160] == '�')
+  status_ = 0;
+  // Lines starting with C, the first one with C 1, in EBCDIC.
+  if (buffer_[0] == '\xC3' && buffer_[1] == '\x40' && buffer_[2] == '\xF1'
+      && buffer_[80] == '\xC3' && buffer_[160] == '\xC3')
   {
     // This is not a trace header, but the start of an EDBDIC-header.
     // Set file pointer at end of EDBDIC header.
-- 
2.43.0


From 1f768e3ab5f2366c5a4b312ee2e269620f77e1d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:52:37 +0000
Subject: [PATCH 099/139] fix: Trend1D's GetMeanValue and ScaleToAverage left
 out the first value

---
 src/nrlib/trend/trend.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nrlib/trend/trend.cpp b/src/nrlib/trend/trend.cpp
index 4d465a4..4cb3e8f 100644
--- a/src/nrlib/trend/trend.cpp
+++ b/src/nrlib/trend/trend.cpp
@@ -357,7 +357,7 @@ Trend1D::GetMeanValue(void) const
 {
   assert (trend_.size() > 0);
   double mean = 0.0;
-  for (size_t i = 1; i < trend_.size(); i++)
+  for (size_t i = 0; i < trend_.size(); i++)
     mean +=trend_[i];
 
   return (mean/trend_.size());
-- 
2.43.0


From 532e7c0e516adaeb0a847542c77eea1940d90bdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:52:37 +0000
Subject: [PATCH 100/139] fix: Trend1D's CheckForNegative did not look at the
 first value

---
 src/nrlib/trend/trend.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nrlib/trend/trend.cpp b/src/nrlib/trend/trend.cpp
index 4cb3e8f..99f33d3 100644
--- a/src/nrlib/trend/trend.cpp
+++ b/src/nrlib/trend/trend.cpp
@@ -376,7 +376,7 @@ bool
 Trend1D::CheckForNegative() const
 {
   bool ok = true;
-  for (size_t i = 1; i < trend_.size(); i++)
+  for (size_t i = 0; i < trend_.size(); i++)
     if (trend_[i] < 0)
       ok = false;
 
-- 
2.43.0


From 99c952ae62d318f7c02e20f622cf37a7b5621ccf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:52:37 +0000
Subject: [PATCH 101/139] fix: Trend3D's GetValue gave the two layers each
 other's weight

---
 src/nrlib/trend/trend.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nrlib/trend/trend.cpp b/src/nrlib/trend/trend.cpp
index 99f33d3..87f177d 100644
--- a/src/nrlib/trend/trend.cpp
+++ b/src/nrlib/trend/trend.cpp
@@ -795,7 +795,7 @@ Trend3D::GetValue(double s1, double s2, double s3) const
   }
 
   double t          = k_frac - k0;
-  double val        = t*val_top + (1.0 - t)*val_bot;
+  double val        = (1.0 - t)*val_top + t*val_bot;
 
   return val;
 }
-- 
2.43.0


From baa37d063b130b12017dd09c52c8ab030a3f0974 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:53:00 +0000
Subject: [PATCH 102/139] fix: ResampleTrend1D left the value at the end of the
 sampling unset

---
 src/nrlib/trend/trendkit.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nrlib/trend/trendkit.cpp b/src/nrlib/trend/trendkit.cpp
index e55da08..53d844c 100644
--- a/src/nrlib/trend/trendkit.cpp
+++ b/src/nrlib/trend/trendkit.cpp
@@ -239,7 +239,7 @@ void ResampleTrend1D(const std::vector<double> & x,
 
   while(i<nx-1) {
 
-    while(j<ny && y[j]>=x[i] && y[j]<x[i+1]) {
+    while(j<ny && y[j]>=x[i] && (y[j]<x[i+1] || (i==nx-2 && y[j]==x[i+1]))) {
 
       InterpolateTrend1DValues(x[i],
                                x[i+1],
-- 
2.43.0


From 805b393062798f4511b2ae15a126eb7b3d1fbf9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:57:10 +0000
Subject: [PATCH 103/139] fix: PointSet refused Roxar text files with no
 newline after the last line

---
 src/nrlib/pointset/pointset.cpp | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/src/nrlib/pointset/pointset.cpp b/src/nrlib/pointset/pointset.cpp
index c4cd840..d99bd63 100644
--- a/src/nrlib/pointset/pointset.cpp
+++ b/src/nrlib/pointset/pointset.cpp
@@ -270,9 +270,6 @@ PointSet::ReadRoxarText(const std::string &filename)
       NRLib::ParseAsciiArrayFast(temp, xyz.begin(), 3);
     }
 
-    if (in_file.eof() && points_.size() > 0) {
-      throw NRLib::Exception("Format error reading Roxar Text file " + filename);
-    }
   }
 }
 
-- 
2.43.0


From 229059750f6a5ceab60097cbacc0a608e5a28fcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:57:10 +0000
Subject: [PATCH 104/139] fix: PointSet wrote empty strings as nothing in
 internal points files, so the values after them moved

---
 src/nrlib/pointset/pointset.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nrlib/pointset/pointset.cpp b/src/nrlib/pointset/pointset.cpp
index d99bd63..d478d8b 100644
--- a/src/nrlib/pointset/pointset.cpp
+++ b/src/nrlib/pointset/pointset.cpp
@@ -507,7 +507,7 @@ PointSet::WriteInternalPoints(const std::string& filename) const
         file << " ";
       }
       for(iter3 = string_tag_.begin(); iter3 != string_tag_.end(); ++iter3){
-        if (iter3->second[i].find(" ") != std::string::npos)
+        if (iter3->second[i].empty() || iter3->second[i].find(" ") != std::string::npos)
           file << "\"" << iter3->second[i] << "\"";
         else
           file << std::setw(15) << iter3->second[i];
-- 
2.43.0


From 497bb3966a53386921c3448c9d099725500636a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:57:10 +0000
Subject: [PATCH 105/139] fix: PointSet dropped the decimals of the coordinates
 in Jason files

---
 src/nrlib/pointset/pointset.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/nrlib/pointset/pointset.cpp b/src/nrlib/pointset/pointset.cpp
index d478d8b..b65852d 100644
--- a/src/nrlib/pointset/pointset.cpp
+++ b/src/nrlib/pointset/pointset.cpp
@@ -421,9 +421,9 @@ void PointSet::ReadJasonXYZ(const std::string &filename)
     }
     il[i] = NRLibPrivate::UnsafeParser<int>::ParseType(tokens[0].c_str());
     xl[i] = NRLibPrivate::UnsafeParser<int>::ParseType(tokens[1].c_str());
-    points_[i].x = NRLibPrivate::UnsafeParser<int>::ParseType(tokens[2].c_str());
-    points_[i].y = NRLibPrivate::UnsafeParser<int>::ParseType(tokens[3].c_str());
-    points_[i].z = NRLibPrivate::UnsafeParser<int>::ParseType(tokens[4].c_str());
+    points_[i].x = NRLibPrivate::UnsafeParser<double>::ParseType(tokens[2].c_str());
+    points_[i].y = NRLibPrivate::UnsafeParser<double>::ParseType(tokens[3].c_str());
+    points_[i].z = NRLibPrivate::UnsafeParser<double>::ParseType(tokens[4].c_str());
   }
 
   AddDiscreteParameter("IL", il);
-- 
2.43.0


From 8ccca8643d7df3629333bfdec99629f5ce120e56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:57:36 +0000
Subject: [PATCH 106/139] fix: PointSet lost the only point of internal points
 files with one point

---
 src/nrlib/pointset/pointset.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/nrlib/pointset/pointset.cpp b/src/nrlib/pointset/pointset.cpp
index b65852d..8e4ca8e 100644
--- a/src/nrlib/pointset/pointset.cpp
+++ b/src/nrlib/pointset/pointset.cpp
@@ -315,13 +315,10 @@ PointSet::ReadRMSInternalPoints(const std::string & filename,
   double infloat;
   size_t n_token;
 
-  bool first_point = true;
+  bool has_point = IsType<double>(type_test); // The line with the first point is already read.
   bool active;
-  while(!NRLib::CheckEndOfFile(file)) {
+  while(has_point) {
     active = false;
-    if (!first_point)
-      std::getline(file, line);
-    first_point = false;
     help = NRLib::GetQuotedTokens(line);
     n_token = help.size();
     for(size_t i = n_token; i < 3 + n_tags; i++)
@@ -368,6 +365,9 @@ PointSet::ReadRMSInternalPoints(const std::string & filename,
           throw NRLib::Exception("Wrong tag specification in RMSInternalPoints file " + filename);
       }
     }
+    has_point = !NRLib::CheckEndOfFile(file);
+    if (has_point)
+      std::getline(file, line);
   }
   for(size_t i = 0; i< n_tags; i++){
     if(type[i] == "Discrete")
-- 
2.43.0


From 3ca8d451ac4fd06eec77ca09d5c7b68873d9c296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:58:31 +0000
Subject: [PATCH 107/139] fix: PointSet's GetConvexHull failed for few, equal
 or collinear points

---
 src/nrlib/pointset/pointset.cpp | 28 +++++++++++++++++-----------
 1 file changed, 17 insertions(+), 11 deletions(-)

diff --git a/src/nrlib/pointset/pointset.cpp b/src/nrlib/pointset/pointset.cpp
index 8e4ca8e..f74212d 100644
--- a/src/nrlib/pointset/pointset.cpp
+++ b/src/nrlib/pointset/pointset.cpp
@@ -705,17 +705,23 @@ PointSet::Erase(size_t index)
 
 Polygon PointSet::GetConvexHull()
 {
-  int minpointindex=0; //The index of the point with the lowest y-coordinate
-  std::vector<int> indexes;
-  indexes.reserve(points_.size());
+  Polygon convex_hull;
+  if (points_.empty())
+    return convex_hull;
+  int minpointindex=0; //The index of the leftmost of the points with the lowest y-coordinate
   for (unsigned int i = 0; i < points_.size(); i++) {
-    indexes.push_back(i);
-    if (points_[i].y<points_[minpointindex].y) {
+    if (points_[i].y<points_[minpointindex].y ||
+        (points_[i].y==points_[minpointindex].y && points_[i].x<points_[minpointindex].x)) {
       minpointindex=i;
     }
   }
-  indexes[minpointindex]=0;
-  indexes[0]=minpointindex; //Switching, so that the element corresponding to lowest y-coordinate is first
+  std::vector<int> indexes;
+  indexes.reserve(points_.size());
+  indexes.push_back(minpointindex); //The element corresponding to lowest y-coordinate is first
+  for (unsigned int i = 0; i < points_.size(); i++) {
+    if (points_[i].x!=points_[minpointindex].x || points_[i].y!=points_[minpointindex].y)
+      indexes.push_back(i); //Points equal to the first one have no angle
+  }
   AngleSort(indexes, minpointindex, 1, static_cast<int>(indexes.size())-1); //Sorting from second element to end
   RemoveEqualAngles(indexes, minpointindex); //If two points has the same angle wrt p=points_[minpointindex], the one closest to p will be deleted
   //debug
@@ -727,9 +733,8 @@ Polygon PointSet::GetConvexHull()
  // polygon.WriteToFile("reducedpoints.dat", NRLib::PointSet::RoxarText);
 
   std::vector<int> candidates; //Storing indexes of points in the convex hull for the first i (as in the variable i in the for-loop) indexes in the vector indexes
-  candidates.push_back(indexes[0]);
-  candidates.push_back(indexes[1]);
-  candidates.push_back(indexes[2]); //The point with the lowest y-coordinate, the point with the smallest angle and the point with the greatest angle is always in the convex hull
+  for (unsigned int i=0; i<3 && i<indexes.size(); i++)
+    candidates.push_back(indexes[i]); //The point with the lowest y-coordinate, the point with the smallest angle and the point with the greatest angle is always in the convex hull
   int top=2;
   int next_to_top=1;
   Point vec1, vec2;
@@ -759,7 +764,6 @@ Polygon PointSet::GetConvexHull()
     top++;
     next_to_top++;
   }
-  Polygon convex_hull;
   for (unsigned int i=0; i<candidates.size(); i++) {
     convex_hull.AddPoint(points_[candidates[i]]);
   }
@@ -826,6 +830,8 @@ void PointSet::AngleSort(std::vector<int> &indexes, int p_index, int start, int
 
 void PointSet::RemoveEqualAngles(std::vector<int> &indexes, int p_index)
 {
+  if (indexes.size()<3)
+    return;
   unsigned int iter1=1;
   unsigned int iter2=2;
   //double cross;
-- 
2.43.0


From 8aa5f172176279e51e404ca5f4dd170530d76c17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:02:18 +0000
Subject: [PATCH 108/139] fix: Wavelet's Resize wrote outside the new wavelet,
 with the samples at the wrong times, when it got shorter

---
 src/nrlib/wavelet/wavelet.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/nrlib/wavelet/wavelet.cpp b/src/nrlib/wavelet/wavelet.cpp
index a436603..c017137 100644
--- a/src/nrlib/wavelet/wavelet.cpp
+++ b/src/nrlib/wavelet/wavelet.cpp
@@ -21,6 +21,7 @@
 
 #include "wavelet.hpp"
 
+#include <algorithm>
 #include <cmath>
 #include <string>
 
@@ -117,19 +118,18 @@ void Wavelet::Resize(size_t nw)
   size_t old_center = wavelet_.size() / 2;
   size_t new_center = nw/2;
   size_t start = 0;  // Start in old wavelet;
-  size_t end   = wavelet_.size();
   size_t shift = 0;  // Start in new wavelet;
   if (old_center > new_center) {
     // Wavelet has become smaller.
     start = old_center - new_center;
-    end   = nw + start;
   }
   else {
     shift = new_center - old_center;
   }
 
-  for (size_t i = start; i < end; ++i) {
-    new_wavelet[i + shift] = wavelet_[i - start];
+  size_t n = std::min(wavelet_.size() - start, nw - shift);
+  for (size_t i = 0; i < n; ++i) {
+    new_wavelet[i + shift] = wavelet_[i + start];
   }
 
   wavelet_.swap(new_wavelet);
-- 
2.43.0


From 0afc1779d599bc34b1804f4a28ace896f9d1789f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:02:18 +0000
Subject: [PATCH 109/139] fix: reading a wavelet from file left samples of the
 wavelet's former contents

---
 src/nrlib/wavelet/waveletio.cpp | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/src/nrlib/wavelet/waveletio.cpp b/src/nrlib/wavelet/waveletio.cpp
index c98c388..8e6d17a 100644
--- a/src/nrlib/wavelet/waveletio.cpp
+++ b/src/nrlib/wavelet/waveletio.cpp
@@ -134,9 +134,8 @@ void ReadJasonAsciiFile(const std::string& filename, Wavelet& wavelet)
     size_t center = static_cast<size_t>(-start/dt + 0.5);
     size_t nw     = ReadNext<size_t>(infile, line_number);
 
-    wavelet.SetSampleInterval(dt);
     size_t data_length = NRLibPrivate::FindWaveletLength(nw, center);
-    wavelet.Resize(data_length);
+    wavelet = Wavelet(data_length, dt);
     size_t shift = NRLibPrivate::FindWaveletShift(data_length, center);
 
     for (size_t i = 0; i < nw; ++i) {
@@ -262,11 +261,10 @@ void ReadSyntoolOWFile(const std::string& filename, Wavelet& wavelet)
   }
 
   size_t center = static_cast<size_t>(time_zero_sample);
-  wavelet.SetSampleInterval(sample_interval);
   size_t nw     = static_cast<size_t>(n_samples);
 
   size_t data_length = NRLibPrivate::FindWaveletLength(nw, center);
-  wavelet.Resize(data_length);
+  wavelet = Wavelet(data_length, sample_interval);
   size_t shift = NRLibPrivate::FindWaveletShift(data_length, center);
 
   try {
@@ -371,10 +369,9 @@ void ReadStrataFile(const std::string& filename, Wavelet& wavelet)
   }
 
   size_t center = time_zero_sample - 1;
-  wavelet.SetSampleInterval(sample_interval);
 
   size_t data_length = NRLibPrivate::FindWaveletLength(n_samples, center);
-  wavelet.Resize(data_length);
+  wavelet = Wavelet(data_length, sample_interval);
   size_t shift = NRLibPrivate::FindWaveletShift(data_length, center);
 
   wavelet[shift] = ParseType<double>(line);
@@ -410,10 +407,8 @@ void ReadLandmarkAsciiFile(const std::string& filename, Wavelet& wavelet)
     size_t center = ReadNext<size_t>(infile, line_number);
     double dt     = ReadNext<double>(infile, line_number);
 
-    wavelet.SetSampleInterval(dt);
-
     size_t data_length = NRLibPrivate::FindWaveletLength(nw, center);
-    wavelet.Resize(data_length);
+    wavelet = Wavelet(data_length, dt);
     size_t shift = NRLibPrivate::FindWaveletShift(data_length, center);
 
     for (size_t i = 0; i < nw; ++i) {
-- 
2.43.0


From b8ca0ce829855c7c3de71e6822552236cf0b87a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:02:35 +0000
Subject: [PATCH 110/139] fix: wavelet files with time zero outside the samples
 aborted or were read with the samples at the wrong times

---
 src/nrlib/wavelet/waveletio.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/nrlib/wavelet/waveletio.cpp b/src/nrlib/wavelet/waveletio.cpp
index 8e6d17a..0fe9484 100644
--- a/src/nrlib/wavelet/waveletio.cpp
+++ b/src/nrlib/wavelet/waveletio.cpp
@@ -131,6 +131,8 @@ void ReadJasonAsciiFile(const std::string& filename, Wavelet& wavelet)
 
     double start  = ReadNext<double>(infile, line_number);
     double dt     = ReadNext<double>(infile, line_number);
+    if (-start/dt + 0.5 < 0.0)
+      throw FileFormatError("Time zero is outside the wavelet.");
     size_t center = static_cast<size_t>(-start/dt + 0.5);
     size_t nw     = ReadNext<size_t>(infile, line_number);
 
@@ -260,6 +262,8 @@ void ReadSyntoolOWFile(const std::string& filename, Wavelet& wavelet)
     throw FileFormatError(msg);
   }
 
+  if (time_zero_sample < 0)
+    throw FileFormatError("Time zero is outside the wavelet.");
   size_t center = static_cast<size_t>(time_zero_sample);
   size_t nw     = static_cast<size_t>(n_samples);
 
@@ -532,7 +536,8 @@ void JasonParseUnits(const std::string & line,
 
 size_t FindWaveletLength(size_t file_wavelet_length, size_t center_index)
 {
-  assert(file_wavelet_length > center_index);
+  if (center_index >= file_wavelet_length)
+    throw FileFormatError("Time zero is outside the wavelet.");
 
   size_t n_before = center_index;
   size_t n_after  = file_wavelet_length - center_index - 1;
-- 
2.43.0


From 48ea9aa84c0656daaf1243543967292f6d233215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:02:35 +0000
Subject: [PATCH 111/139] fix: Syntool wavelet files with no newline after the
 last line were refused

---
 src/nrlib/wavelet/waveletio.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nrlib/wavelet/waveletio.cpp b/src/nrlib/wavelet/waveletio.cpp
index 0fe9484..0fd0b29 100644
--- a/src/nrlib/wavelet/waveletio.cpp
+++ b/src/nrlib/wavelet/waveletio.cpp
@@ -275,7 +275,7 @@ void ReadSyntoolOWFile(const std::string& filename, Wavelet& wavelet)
     for (size_t i = 0; i < nw; ++i) {
       double val;
       GetNextNonEmptyLine(infile, line_number, line);
-      if (infile.eof())
+      if (!infile)
         throw EndOfFile();
       std::vector<std::string> tokens = GetTokens(line);
       if (tokens.size() == 2) {
-- 
2.43.0


From ac31597b337fbfe7a36af30cc56d5a39e5656498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:13:59 +0000
Subject: [PATCH 112/139] fix: EclipseGeometry's FindIndex never ended for
 grids with one layer

---
 src/nrlib/eclipsegrid/eclipsegeometry.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nrlib/eclipsegrid/eclipsegeometry.cpp b/src/nrlib/eclipsegrid/eclipsegeometry.cpp
index 9df54e7..14f7ed2 100644
--- a/src/nrlib/eclipsegrid/eclipsegeometry.cpp
+++ b/src/nrlib/eclipsegrid/eclipsegeometry.cpp
@@ -484,7 +484,7 @@ bool EclipseGeometry::FindIndex(double x_in, double y_in, double z_in,
       above_bot = true;
     if(above_top == true || above_bot == false)
       return false;
-    while(top < bot-1){
+    while(top + 1 < bot){
         newbot = static_cast<size_t>(0.5*(top+bot));
         if (z_in < FindPointCellSurface(i_out, j_out, newbot, 1, u, v).z ){
           bot = newbot;
-- 
2.43.0


From e45231b52e9759706672b78ff748ad8ee8a51af4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:13:59 +0000
Subject: [PATCH 113/139] fix: points on the top and base of Eclipse cells were
 wrong in the interior of the cell

---
 src/nrlib/eclipsegrid/eclipsegeometry.cpp | 55 +++++++----------------
 1 file changed, 16 insertions(+), 39 deletions(-)

diff --git a/src/nrlib/eclipsegrid/eclipsegeometry.cpp b/src/nrlib/eclipsegrid/eclipsegeometry.cpp
index 14f7ed2..1985654 100644
--- a/src/nrlib/eclipsegrid/eclipsegeometry.cpp
+++ b/src/nrlib/eclipsegrid/eclipsegeometry.cpp
@@ -795,45 +795,22 @@ EclipseGeometry::FindZBotAtPillar(size_t i, size_t j, bool & found) const
 
 Point EclipseGeometry::FindPointCellSurface(size_t i_in, size_t j_in, size_t k_in, int lower_or_upper, double u_in, double v_in) const
 {
-  //The p values are the corner points on the cell, while q and r are points with the same z-value as the p-point
-  // at respectively the neighbouring pillar in i-direction and neighbouring pillar in j-direction.
-  Point p00 = FindPointAtPillar(i_in, j_in, GetZCorner(i_in, j_in, k_in, 0,0,lower_or_upper) );
-  Point q00 = FindPointAtPillar(i_in, j_in, GetZCorner(i_in, j_in, k_in, 1,0,lower_or_upper) );
-  Point r00 = FindPointAtPillar(i_in, j_in, GetZCorner(i_in, j_in, k_in, 0,1,lower_or_upper) );
-
-
-  Point p10 = FindPointAtPillar(i_in + 1, j_in, GetZCorner(i_in, j_in, k_in, 1,0,lower_or_upper) );
-  Point q10 = FindPointAtPillar(i_in + 1, j_in, GetZCorner(i_in, j_in, k_in, 0,0,lower_or_upper) );
-  Point r10 = FindPointAtPillar(i_in + 1, j_in, GetZCorner(i_in, j_in, k_in, 1,1,lower_or_upper) );
-
-
-  Point p01 = FindPointAtPillar(i_in, j_in + 1, GetZCorner(i_in, j_in, k_in, 0,1,lower_or_upper) );
-  Point q01 = FindPointAtPillar(i_in, j_in + 1, GetZCorner(i_in, j_in, k_in, 1,1,lower_or_upper) );
-  Point r01 = FindPointAtPillar(i_in, j_in + 1, GetZCorner(i_in, j_in, k_in, 0,0,lower_or_upper) );
-
-
-  Point p11 = FindPointAtPillar(i_in + 1, j_in + 1, GetZCorner(i_in, j_in, k_in, 1,1,lower_or_upper) );
-  Point q11 = FindPointAtPillar(i_in + 1, j_in + 1, GetZCorner(i_in, j_in, k_in, 0,1,lower_or_upper) );
-  Point r11 = FindPointAtPillar(i_in + 1, j_in + 1, GetZCorner(i_in, j_in, k_in, 1,0,lower_or_upper) );
-
-
-  //Coefficients for the model f(u,v) = (a2*v^2 + a1*v + a0)u^2 + (a1*v^2 + b1*v + c1)u + a0*v^2 + b0*v + c0
-  Point a2 = (p01 + p11 - q01 - q11) -(p00 + p10 - q00 - q10) -(r10 + r11 - 2*p10);
-  Point b2 = r10 + r11 - 2*p10;
-  Point c2 = p00 + p10 - q00 - q10;
-
-  Point a1 = (p00 + p10 - q00 - q10) + (p10 + p11 - r10 - r11) - (p01 + p11 - q01 - q11)
-             - (p00 + p01 - r00 - r01) + (r10 + r11 - 2*p10);
-  Point b1 = -1*(r00 + r01 - 2*p00);
-  Point c1 = q00 + q10 - 2*p00;
-
-  Point a0 = p00 + p01 - r00 - r01;
-  Point b0 = r00 + r01 - 2*p00;
-  Point c0 = p00;
-
-  Point f = (a2 * v_in*v_in + b2*v_in + c2) * u_in*u_in
-            + (a1 * v_in*v_in + b1*v_in + c1) * u_in
-            + a0 * v_in*v_in + b0*v_in + c0;
+  // The depth is bilinear in u and v between the corners, and at that depth the point divides the
+  // cell between the four pillars as (u, v).
+  double w00 = (1 - u_in) * (1 - v_in);
+  double w10 = u_in * (1 - v_in);
+  double w01 = (1 - u_in) * v_in;
+  double w11 = u_in * v_in;
+
+  double z = w00 * GetZCorner(i_in, j_in, k_in, 0, 0, lower_or_upper)
+             + w10 * GetZCorner(i_in, j_in, k_in, 1, 0, lower_or_upper)
+             + w01 * GetZCorner(i_in, j_in, k_in, 0, 1, lower_or_upper)
+             + w11 * GetZCorner(i_in, j_in, k_in, 1, 1, lower_or_upper);
+
+  Point f = w00 * FindPointAtPillar(i_in,     j_in,     z)
+            + w10 * FindPointAtPillar(i_in + 1, j_in,     z)
+            + w01 * FindPointAtPillar(i_in,     j_in + 1, z)
+            + w11 * FindPointAtPillar(i_in + 1, j_in + 1, z);
 
   return f;
 }
-- 
2.43.0


From 5f4cc1893bf96705f350756303397e81ebb16da1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:13:59 +0000
Subject: [PATCH 114/139] fix: FindIndex located points with cancelling digits
 in cells that are nearly parallelograms

---
 src/nrlib/eclipsegrid/eclipsegeometry.cpp | 106 +++++++++-------------
 1 file changed, 42 insertions(+), 64 deletions(-)

diff --git a/src/nrlib/eclipsegrid/eclipsegeometry.cpp b/src/nrlib/eclipsegrid/eclipsegeometry.cpp
index 1985654..5920d7f 100644
--- a/src/nrlib/eclipsegrid/eclipsegeometry.cpp
+++ b/src/nrlib/eclipsegrid/eclipsegeometry.cpp
@@ -30,6 +30,7 @@
 #include "../iotools/stringtools.hpp"
 #include "../math/constants.hpp"
 
+#include <cmath>
 #include <stdexcept>
 #include <fstream>
 #include <iostream>
@@ -831,73 +832,50 @@ void EclipseGeometry::FindUVCoordinates(double x_in, double y_in, double z_in, s
   p01 = FindPointAtPillar(i_out, j_out + 1, z_in);
   p11 = FindPointAtPillar(i_out + 1, j_out + 1, z_in);
 
-  double ax, ay, bx, by, cx, cy, dx, dy;
-
-  ax = p00.x + p11.x - p10.x - p01.x;
-  ay = p00.y + p11.y - p10.y - p01.y;
-  bx = p10.x - p00.x;
-  by = p10.y - p00.y;
-  cx = p01.x - p00.x;
-  cy = p01.y - p00.y;
-  dx = p00.x;
-  dy = p00.y;
-
-  double seca, secb, secc;
-
-
-  if (ax == 0 && bx == 0){
-    if (cx != 0){
-      v_out = (x_in - dx)/cx;
-    }
-    else{
-      throw Exception( "Degenerated cell" );
-    }
-    if (ay != 0 || by != 0) {
-      if (ay*v_out + by != 0){
-        u_out = (y_in - cy*v_out - dy)/(ay*v_out + by);
-      }
-      else{
-        u_out = 0; //free parameter
-      }
-    }
-    else {
-      // ay == 0 && by == 0
-      throw Exception( "Degenerated cell" );
+  // Coordinates relative to p00: (x, y) = a*u*v + b*u + c*v
+  double ax = (p00.x - p10.x) + (p11.x - p01.x);
+  double ay = (p00.y - p10.y) + (p11.y - p01.y);
+  double bx = p10.x - p00.x;
+  double by = p10.y - p00.y;
+  double cx = p01.x - p00.x;
+  double cy = p01.y - p00.y;
+  double x  = x_in - p00.x;
+  double y  = y_in - p00.y;
+
+  //seca*v^2 + secb*v + secc = 0
+  double seca = ax*cy - ay*cx;
+  double secb = bx*cy + x*ay - by*cx - ax*y;
+  double secc = x*by - y*bx;
+
+  // seca may be anything between zero and large. The root that does not vanish with seca is found
+  // without subtracting nearly equal numbers.
+  double disc = secb*secb - 4*seca*secc;
+  double root = disc > 0.0 ? sqrt(disc) : 0.0;
+  double q    = -0.5*(secb + (secb < 0.0 ? -root : root));
+  if (q != 0.0) {
+    v_out = secc/q;
+    if ((v_out < 0 || v_out > 1) && seca != 0.0) {
+      double v = q/seca;
+      if (v >= 0 && v <= 1)
+        v_out = v;
     }
   }
-  else{
-    //seca*v^2 + secb*v + secc = 0
-    seca = ax*cy - ay*cx;
-    secb = dy*ax + bx*cy + x_in*ay - dx*ay - by*cx - ax*y_in;
-    secc = dy*bx + x_in*by - by*dx - y_in*bx;
-
-    if (seca != 0){
-      // The expression with + in front of the square root seems to be the correct one
-      v_out = (-secb + sqrt(secb*secb - 4*seca*secc))/(2*seca);
-      if (v_out <0 || v_out>1){
-        v_out = (-secb - sqrt(secb*secb - 4*seca*secc))/(2*seca);
-      }
-    }
-    else{
-      if (secb != 0){
-        v_out = (-secc)/secb;
-      }
-      else{
-        if (secc == 0){
-          v_out = 0; //free parameter
-        }
-        else{
-          throw Exception( "Degenerated cell" );
-        }
-      }
-    }
-    if (ax*v_out + bx != 0){
-      u_out = (x_in - cx*v_out - dx)/(ax*v_out + bx);
-    }
-    else{
-      u_out = 0; //free parameter
-    }
+  else if (secc == 0.0) {
+    v_out = 0; //free parameter
+  }
+  else {
+    throw Exception( "Degenerated cell" );
   }
+
+  // Use the best determined of the two equations for u.
+  double ux = ax*v_out + bx;
+  double uy = ay*v_out + by;
+  if (ux == 0 && uy == 0)
+    u_out = 0; //free parameter
+  else if (std::abs(ux) >= std::abs(uy))
+    u_out = (x - cx*v_out)/ux;
+  else
+    u_out = (y - cy*v_out)/uy;
 }
 
 void EclipseGeometry::ReadSpecGrid(std::ifstream& in_file)
-- 
2.43.0


From c3491e958b593b65f1bdf8e16b61efe645d0b9ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:13:59 +0000
Subject: [PATCH 115/139] fix: reading an Eclipse file that is cut short never
 ended

---
 src/nrlib/eclipsegrid/eclipsegrid.cpp  |  9 ++++++---
 src/nrlib/eclipsegrid/eclipsetools.cpp | 15 ++++++++++++---
 2 files changed, 18 insertions(+), 6 deletions(-)

diff --git a/src/nrlib/eclipsegrid/eclipsegrid.cpp b/src/nrlib/eclipsegrid/eclipsegrid.cpp
index 7328e87..7f7623b 100644
--- a/src/nrlib/eclipsegrid/eclipsegrid.cpp
+++ b/src/nrlib/eclipsegrid/eclipsegrid.cpp
@@ -152,7 +152,8 @@ void EclipseGrid::ReadFaults(std::ifstream& in_file)
 
   bool be_in_loop = true;
   while (be_in_loop == true){
-    std::getline(in_file, in_line);
+    if (!std::getline(in_file, in_line))
+      throw IOError("The file ends in the middle of FAULTS.");
     line_tokens = GetTokens(in_line);
     if ( line_tokens.empty() ){
     }
@@ -364,7 +365,8 @@ void EclipseGrid::ReadKeyword(std::ifstream& in_file, const std::string& token)
     string s;
     bool cont_read = true;
     while (cont_read){
-      std::getline(in_file, s);
+      if (!std::getline(in_file, s))
+        throw IOError("The file ends in the middle of MULTIPLY.");
       std::vector<std::string> line_tokens;
       line_tokens = GetTokens(s);
       if ( line_tokens.empty() ){
@@ -379,7 +381,8 @@ void EclipseGrid::ReadKeyword(std::ifstream& in_file, const std::string& token)
     string s;
     bool cont_read = true;
     while (cont_read){
-      std::getline(in_file, s);
+      if (!std::getline(in_file, s))
+        throw IOError("The file ends in the middle of GDORIENT.");
       std::vector<std::string> line_tokens;
       line_tokens = GetTokens(s);
       if (!line_tokens.empty()) {
diff --git a/src/nrlib/eclipsegrid/eclipsetools.cpp b/src/nrlib/eclipsegrid/eclipsetools.cpp
index 0dd9a85..919fa6b 100644
--- a/src/nrlib/eclipsegrid/eclipsetools.cpp
+++ b/src/nrlib/eclipsegrid/eclipsetools.cpp
@@ -21,6 +21,8 @@
 
 #include "eclipsetools.hpp"
 
+#include "../exception/exception.hpp"
+
 #include <string>
 #include <vector>
 #include <iostream>
@@ -38,13 +40,18 @@ void SkipComments( std::ifstream& in_file )
   bool comment = true;
 
   while (comment == true){
-    in_file.get(c);
+    if (!in_file.get(c)) // End of file
+      return;
     if ( isspace(c) ){
 
     }
     else if (c == '-'){
-      in_file.get(c);
-      if (c == '-'){
+      if (!in_file.get(c)) { // End of file
+        in_file.clear();
+        in_file.unget();
+        comment = false;
+      }
+      else if (c == '-'){
         std::getline(in_file, line_removed);
       }
       else{
@@ -70,6 +77,8 @@ std::string ReadParameterBuffer(std::ifstream& in_file)
   size_t counter = 0;
   while ( pos == buffer.npos )
   {
+    if (!in_file)
+      throw IOError("The file ends in the middle of a keyword: a / is missing.");
     counter+=K;
     buffer.resize(counter);
     in_file.read(&(buffer[counter-K]), K);
-- 
2.43.0


From 3fcd52fbf1a5e4a1661950adf02fece45533d72d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:13:59 +0000
Subject: [PATCH 116/139] fix: MAPAXES with the x axis pointing south, or
 left-handed and rotated, turned Eclipse grids the wrong way

---
 src/nrlib/eclipsegrid/eclipsegrid.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/nrlib/eclipsegrid/eclipsegrid.cpp b/src/nrlib/eclipsegrid/eclipsegrid.cpp
index 7f7623b..d39df7c 100644
--- a/src/nrlib/eclipsegrid/eclipsegrid.cpp
+++ b/src/nrlib/eclipsegrid/eclipsegrid.cpp
@@ -300,15 +300,13 @@ void EclipseGrid::ReadFromFile(const std::string& file_name)
   if (local_coord == true) {
     if (has_map_axes == true) {
       NRLib::Transformation transformation;
-      double vector_length = sqrt( pow((map_ax_x3 - map_ax_x2), 2) + pow( (map_ax_y3 - map_ax_y2), 2) );
-      double theta = acos( (map_ax_x3 - map_ax_x2)/vector_length );
-
-      transformation.RotateZ(theta);
+      double theta = atan2(map_ax_y3 - map_ax_y2, map_ax_x3 - map_ax_x2);
 
       double cross_prod =(map_ax_y1 - map_ax_y2)*(map_ax_x3 - map_ax_x2) - (map_ax_x1 - map_ax_x2)*(map_ax_y3 - map_ax_y2);
       if (cross_prod <0){
         transformation.MirrorXZ();
       }
+      transformation.RotateZ(theta);
       transformation.TranslateX(map_ax_x2);
       transformation.TranslateY(map_ax_y2);
 
-- 
2.43.0


From e1603c860c605f874c7442255215585eac243355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:13:59 +0000
Subject: [PATCH 117/139] fix: large values of Eclipse parameters were written
 with no space between them

---
 src/nrlib/eclipsegrid/eclipsegrid.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nrlib/eclipsegrid/eclipsegrid.cpp b/src/nrlib/eclipsegrid/eclipsegrid.cpp
index d39df7c..8649bd0 100644
--- a/src/nrlib/eclipsegrid/eclipsegrid.cpp
+++ b/src/nrlib/eclipsegrid/eclipsegrid.cpp
@@ -556,7 +556,7 @@ void EclipseGrid::WriteContParameter(std::ofstream             & out_file,
     if(i%6 == 0){
       out_file << "\n";
     }
-    out_file << std::setw(15) << parameter(i);
+    out_file << " " << std::setw(14) << parameter(i);
   }
   out_file << "\n" << "  /\n\n";
 }
-- 
2.43.0


From 4fabbec66227a24e1e021a8359a9fab23aaca1f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:13:59 +0000
Subject: [PATCH 118/139] fix: Eclipse files with COORD in another file than
 SPECGRID were refused

---
 src/nrlib/eclipsegrid/eclipsegrid.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nrlib/eclipsegrid/eclipsegrid.cpp b/src/nrlib/eclipsegrid/eclipsegrid.cpp
index 8649bd0..32bd8a7 100644
--- a/src/nrlib/eclipsegrid/eclipsegrid.cpp
+++ b/src/nrlib/eclipsegrid/eclipsegrid.cpp
@@ -287,7 +287,7 @@ void EclipseGrid::ReadFromFile(const std::string& file_name)
       has_spec_grid = true;
     }
     else if (token == "COORD") {
-      if (!has_spec_grid) {
+      if (!has_spec_grid && geometry_.GetN() == 0) {
         throw IOError("Missing keyword SPECGRID in " + file_name + " when reading grid coordinates.");
       }
       geometry_.ReadCoord(in_file);
-- 
2.43.0


From 6bf7a968f15a7153436eedb92bd82ae171673285 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:13:59 +0000
Subject: [PATCH 119/139] fix: EclipseGrid's Resize left former corner depths

---
 src/nrlib/eclipsegrid/eclipsegeometry.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nrlib/eclipsegrid/eclipsegeometry.cpp b/src/nrlib/eclipsegrid/eclipsegeometry.cpp
index 5920d7f..3436553 100644
--- a/src/nrlib/eclipsegrid/eclipsegeometry.cpp
+++ b/src/nrlib/eclipsegrid/eclipsegeometry.cpp
@@ -69,7 +69,7 @@ void EclipseGeometry::Resize(size_t ni, size_t nj, size_t nk)
   nk_ = nk;
   pillars_.Resize(ni + 1, nj + 1);
   active_pillars_.Resize(ni + 1, nj + 1);
-  z_corners_.resize(8 * ni * nj * nk);
+  z_corners_.assign(8 * ni * nj * nk, 0.0);
   active_.Resize(ni, nj, nk);
 }
 
-- 
2.43.0


From ad1c91cb69d40582f2e31e7f3b38dfb75c6171c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:13:59 +0000
Subject: [PATCH 120/139] fix: FaceIndexer read outside a fault with no
 segments

---
 src/nrlib/eclipsegrid/eclipsefaceindexer.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/nrlib/eclipsegrid/eclipsefaceindexer.cpp b/src/nrlib/eclipsegrid/eclipsefaceindexer.cpp
index 00ae848..c7a89b2 100644
--- a/src/nrlib/eclipsegrid/eclipsefaceindexer.cpp
+++ b/src/nrlib/eclipsegrid/eclipsefaceindexer.cpp
@@ -31,9 +31,14 @@ FaceIndexer::FaceIndexer(const EclipseFault &fault)
 {
   segment_iterator_ = fault.SegmentsBegin();
   end_iterator_ = fault.SegmentsEnd();
-  i_ = segment_iterator_->i_from;
-  j_ = segment_iterator_->j_from;
-  k_ = segment_iterator_->k_from;
+  i_ = 0;
+  j_ = 0;
+  k_ = 0;
+  if (IsFinished() == false) {
+    i_ = segment_iterator_->i_from;
+    j_ = segment_iterator_->j_from;
+    k_ = segment_iterator_->k_from;
+  }
 }
 
 CellFace FaceIndexer::GetFace()
-- 
2.43.0


From f65df72dfe9a06469f59f35840afafcaca9f0bf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:14:37 +0000
Subject: [PATCH 121/139] fix: reading an Eclipse file with no SPECGRID aborted

---
 src/nrlib/eclipsegrid/eclipsegeometry.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/nrlib/eclipsegrid/eclipsegeometry.cpp b/src/nrlib/eclipsegrid/eclipsegeometry.cpp
index 3436553..caec619 100644
--- a/src/nrlib/eclipsegrid/eclipsegeometry.cpp
+++ b/src/nrlib/eclipsegrid/eclipsegeometry.cpp
@@ -971,6 +971,11 @@ void EclipseGeometry::InitializeActivePillars()
 void EclipseGeometry::FindMinAndMaxZValueAndSetPolygons()
 {
   //printf("find min and max z\n");
+  if (GetN() == 0) {
+    polymin_ = Polygon();
+    polymax_ = Polygon();
+    return;
+  }
   size_t i, j, k;
   Point pt, botpt, toppt;
   toppt.z = -999.0;
-- 
2.43.0


From f7395c5bce4cb597b5a678c555ccde72cc40940b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:24:16 +0000
Subject: [PATCH 122/139] fix: FindIndex missed points inside Eclipse cells but
 outside the outlines of the grid's top and base

---
 src/nrlib/eclipsegrid/eclipsegeometry.cpp | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/src/nrlib/eclipsegrid/eclipsegeometry.cpp b/src/nrlib/eclipsegrid/eclipsegeometry.cpp
index caec619..8365f34 100644
--- a/src/nrlib/eclipsegrid/eclipsegeometry.cpp
+++ b/src/nrlib/eclipsegrid/eclipsegeometry.cpp
@@ -158,12 +158,6 @@ bool EclipseGeometry::GetCellIndex_ij(double x_in, double y_in, double z_in, siz
 {
 
   Point  p_in(x_in, y_in, z_in);
- // bool inside = largepoly.IsInsidePolygonXY(p_in);
-  bool inside1 = polymin_.IsInsidePolygonXY(p_in);
-  bool inside2 = polymax_.IsInsidePolygonXY(p_in);
-  if(inside1==false && inside2==false)
-    return false;
-
  // Generate check_plane, defined by given input point and any normal vector, here (0,0,1)
 
   Point  nvec_in( 0,0,1 );
-- 
2.43.0


From 5c0a815b7becea084f5e85aa6b6a127bdc5f0bba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:08:44 +0000
Subject: [PATCH 123/139] fix: reading XML from a stream never ended at an
 embedded null character

---
 src/nrlib/tinyxml/tinyxmlparser.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/nrlib/tinyxml/tinyxmlparser.cpp b/src/nrlib/tinyxml/tinyxmlparser.cpp
index a1bb72e..caee1de 100644
--- a/src/nrlib/tinyxml/tinyxmlparser.cpp
+++ b/src/nrlib/tinyxml/tinyxmlparser.cpp
@@ -952,6 +952,15 @@ void TiXmlElement::StreamIn (std::istream * in, TIXML_STRING * tag)
             if ( in->good() && in->peek() != '<' )
             {
                 // Yep, text.
+                if ( in->peek() <= 0 )
+                {
+                    // End of the stream, or an embedded null: there is no closing tag.
+                    TiXmlDocument* document = GetDocument();
+                    if ( document )
+                        document->SetError( TIXML_ERROR_EMBEDDED_NULL, 0, 0, TIXML_ENCODING_UNKNOWN );
+                    return;
+                }
+
                 TiXmlText text( "" );
                 text.StreamIn( in, tag );
 
-- 
2.43.0


From b685f9ea47753e0278a47863d869ebeb1e18d0d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:09:10 +0000
Subject: [PATCH 124/139] fix: the XML parser read past the end of documents
 that end inside text, a comment or CDATA

---
 src/nrlib/tinyxml/tinyxmlparser.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/nrlib/tinyxml/tinyxmlparser.cpp b/src/nrlib/tinyxml/tinyxmlparser.cpp
index caee1de..1b31684 100644
--- a/src/nrlib/tinyxml/tinyxmlparser.cpp
+++ b/src/nrlib/tinyxml/tinyxmlparser.cpp
@@ -631,7 +631,7 @@ const char* TiXmlBase::ReadText(    const char* p,
             }
         }
     }
-    if ( p )
+    if ( p && *p )
         p += strlen( endTag );
     return p;
 }
@@ -1388,7 +1388,7 @@ const char* TiXmlComment::Parse( const char* p, TiXmlParsingData* data, TiXmlEnc
         value.append( p, 1 );
         ++p;
     }
-    if ( p )
+    if ( p && *p )
         p += strlen( endTag );
 
     return p;
@@ -1548,9 +1548,9 @@ const char* TiXmlText::Parse( const char* p, TiXmlParsingData* data, TiXmlEncodi
 
         const char* end = "<";
         p = ReadText( p, &value, ignoreWhite, end, false, encoding );
-        if ( p )
+        if ( p && *(p-1) == '<' )
             return p-1; // don't truncate the '<'
-        return 0;
+        return p;       // the text was not followed by a '<'
     }
 }
 
-- 
2.43.0


From 262fa0e36a67f67f38499eb6a9b0d5f96a0cabee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:10:13 +0000
Subject: [PATCH 125/139] fix: the XML parser read past the end of texts that
 end inside a UTF-8 character

---
 src/nrlib/tinyxml/tinyxml.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/nrlib/tinyxml/tinyxml.h b/src/nrlib/tinyxml/tinyxml.h
index b85f394..da87983 100644
--- a/src/nrlib/tinyxml/tinyxml.h
+++ b/src/nrlib/tinyxml/tinyxml.h
@@ -350,10 +350,13 @@ protected:
         {
             //strncpy( _value, p, *length );    // lots of compilers don't like this function (unsafe),
                                                 // and the null terminator isn't needed
-            for( int i=0; p[i] && i<*length; ++i ) {
+            // The text may end inside the character.
+            int i;
+            for( i=0; i<*length && p[i]; ++i ) {
                 _value[i] = p[i];
             }
-            return p + (*length);
+            *length = i;
+            return p + i;
         }
         else
         {
-- 
2.43.0


From f3cf744edfd2a5c0ff46b3177ce78ded1a789f4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:10:13 +0000
Subject: [PATCH 126/139] fix: the XML parser never ended, or read past the
 end, when positioning itself after a truncated UTF-8 character

---
 src/nrlib/tinyxml/tinyxmlparser.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/nrlib/tinyxml/tinyxmlparser.cpp b/src/nrlib/tinyxml/tinyxmlparser.cpp
index 1b31684..0c8b0c9 100644
--- a/src/nrlib/tinyxml/tinyxmlparser.cpp
+++ b/src/nrlib/tinyxml/tinyxmlparser.cpp
@@ -274,6 +274,12 @@ void TiXmlParsingData::Stamp( const char* now, TiXmlEncoding encoding )
                         else
                             { p +=3; ++col; }   // A normal character.
                     }
+                    else
+                    {
+                        // The text ends inside the character.
+                        ++p;
+                        ++col;
+                    }
                 }
                 else
                 {
@@ -289,7 +295,9 @@ void TiXmlParsingData::Stamp( const char* now, TiXmlEncoding encoding )
                                         int step = TiXmlBase::utf8ByteTable[*(reinterpret_cast<const unsigned char*>(p))];
                     if ( step == 0 )
                         step = 1;       // Error case from bad encoding, but handle gracefully.
-                    p += step;
+                    // Never advance past the terminating null character.
+                    for ( ; step > 0 && *p; --step )
+                        ++p;
 
                     // Just advance one column, of course.
                     ++col;
-- 
2.43.0


From b7abdb7919970fb0916797dbe9951c3d38037c18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:10:54 +0000
Subject: [PATCH 127/139] fix: an XML document whose root element repeats an
 attribute was cut off without an error

---
 src/nrlib/tinyxml/tinyxmlparser.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/nrlib/tinyxml/tinyxmlparser.cpp b/src/nrlib/tinyxml/tinyxmlparser.cpp
index 0c8b0c9..b16c294 100644
--- a/src/nrlib/tinyxml/tinyxmlparser.cpp
+++ b/src/nrlib/tinyxml/tinyxmlparser.cpp
@@ -1180,6 +1180,7 @@ const char* TiXmlElement::Parse( const char* p, TiXmlParsingData* data, TiXmlEnc
             if ( node )
             {
                 node->SetValue( attrib->Value() );
+                if ( document ) document->SetError( TIXML_ERROR_PARSING_ELEMENT, pErr, data, encoding );
                 delete attrib;
                 return 0;
             }
-- 
2.43.0


From 7233c1524ff2564cbf1365037437f3f3f4a9244c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:10:54 +0000
Subject: [PATCH 128/139] fix: an XML declaration that is not closed aborted
 the parser, or cut off the document without an error

---
 src/nrlib/tinyxml/tinyxmlparser.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/nrlib/tinyxml/tinyxmlparser.cpp b/src/nrlib/tinyxml/tinyxmlparser.cpp
index b16c294..0e995c5 100644
--- a/src/nrlib/tinyxml/tinyxmlparser.cpp
+++ b/src/nrlib/tinyxml/tinyxmlparser.cpp
@@ -1618,6 +1618,8 @@ const char* TiXmlDeclaration::Parse( const char* p, TiXmlParsingData* data, TiXm
         }
 
         p = SkipWhiteSpace( p, _encoding );
+        if ( !p || !*p )
+            break;
         if ( StringEqual( p, "version", true, _encoding ) )
         {
             TiXmlAttribute attrib;
@@ -1643,6 +1645,8 @@ const char* TiXmlDeclaration::Parse( const char* p, TiXmlParsingData* data, TiXm
                 ++p;
         }
     }
+    // The declaration was not closed, or could not be read.
+    if ( document ) document->SetError( TIXML_ERROR_PARSING_DECLARATION, 0, 0, _encoding );
     return 0;
 }
 
-- 
2.43.0


From be0cb00fd53346fbb74752364d677f1562f107eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:11:20 +0000
Subject: [PATCH 129/139] fix: reading XML from a stream aborted on a CDATA
 start inside a closing tag

---
 src/nrlib/tinyxml/tinyxmlparser.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/nrlib/tinyxml/tinyxmlparser.cpp b/src/nrlib/tinyxml/tinyxmlparser.cpp
index 0e995c5..b69789a 100644
--- a/src/nrlib/tinyxml/tinyxmlparser.cpp
+++ b/src/nrlib/tinyxml/tinyxmlparser.cpp
@@ -1007,12 +1007,11 @@ void TiXmlElement::StreamIn (std::istream * in, TIXML_STRING * tag)
                 in->get();
 
                 // Early out if we find the CDATA id.
-                if ( c == '[' && tag->size() >= 9 )
+                if ( !closingTag && c == '[' && tag->size() >= 9 )
                 {
                     size_t len = tag->size();
                     const char* start = tag->c_str() + len - 9;
                     if ( strcmp( start, "<![CDATA[" ) == 0 ) {
-                        assert( !closingTag );
                         break;
                     }
                 }
-- 
2.43.0


From 6c687e5b04642137a0914b0e1005dd3b4d882956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:11:52 +0000
Subject: [PATCH 130/139] fix: FirstChildElement gave the index of the first
 node with the value, not of the element it found

---
 src/nrlib/tinyxml/tinyxml.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/nrlib/tinyxml/tinyxml.cpp b/src/nrlib/tinyxml/tinyxml.cpp
index cc68af5..6d21e64 100644
--- a/src/nrlib/tinyxml/tinyxml.cpp
+++ b/src/nrlib/tinyxml/tinyxml.cpp
@@ -477,11 +477,11 @@ const TiXmlElement* TiXmlNode::FirstChildElement( const char * _value, int & ind
 
     index = 0;
 
-    for (   node = FirstChild( _value, index );
-            node;
-            node = node->NextSibling( _value ) )
+    for ( node = firstChild; node; node = node->next )
     {
-        if ( node->ToElement() )
+        if ( node->type != COMMENT )
+            index ++;
+        if ( node->ToElement() && strcmp( node->Value(), _value ) == 0 )
             return node->ToElement();
     }
     return 0;
-- 
2.43.0


From b37135ab3e5e1ebb241f43e5225fc88a8817e57a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:54 +0000
Subject: [PATCH 131/139] fix: a trace header that was used before kept the old
 coordinate scaling for traces without one

---
 src/nrlib/segy/traceheader.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/nrlib/segy/traceheader.cpp b/src/nrlib/segy/traceheader.cpp
index f4d9e79..e36e833 100644
--- a/src/nrlib/segy/traceheader.cpp
+++ b/src/nrlib/segy/traceheader.cpp
@@ -501,6 +501,9 @@ void TraceHeader::Read(NRLib::BigFile& in_file)
       case 1000:
       case 10000:
         scal_co_ = static_cast<double>(scalcoinitial_);
+        break;
+      default:
+        scal_co_ = 1.0;
     }
   }
 }
@@ -729,6 +732,9 @@ void TraceHeader::SetScalCo(short scalcoinitial)
   case 1000:
   case 10000:
     scal_co_ = static_cast<double>(scalcoinitial);
+    break;
+  default:
+    scal_co_ = 1.0;
   }
 }
 
-- 
2.43.0


From 8aa26b0534c4879e1a32c8c2d5fa7e30db995f2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:54 +0000
Subject: [PATCH 132/139] fix: SegY::GetValue in the outermost traces
 interpolated with traces from the other side of the survey

---
 src/nrlib/segy/segy.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/nrlib/segy/segy.cpp b/src/nrlib/segy/segy.cpp
index b03ec28..65888f1 100644
--- a/src/nrlib/segy/segy.cpp
+++ b/src/nrlib/segy/segy.cpp
@@ -1084,9 +1084,9 @@ SegY::GetValue(double x, double y, double z, int outsideMode) const
         // Along x:
         v0 = rmissing_;
         v2 = rmissing_;
-        if (index >= 1 && traces_[index-1] != NULL)
+        if (i >= 1 && traces_[index-1] != NULL)
           v0 = traces_[index-1]->GetValue(zind);
-        if (index+1 <= maxInd && traces_[index+1] != NULL)
+        if (i+1 < static_cast<int>(nx) && traces_[index+1] != NULL)
           v2 = traces_[index+1]->GetValue(zind);
         if (v0 == rmissing_)
         {
-- 
2.43.0


From abe27c0898bd5d6ec2ea9d1d65264816d41ad10c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:54 +0000
Subject: [PATCH 133/139] fix: traces could not be stored in a SegY object that
 is not to be written

---
 src/nrlib/segy/segy.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/nrlib/segy/segy.cpp b/src/nrlib/segy/segy.cpp
index 65888f1..681dfbc 100644
--- a/src/nrlib/segy/segy.cpp
+++ b/src/nrlib/segy/segy.cpp
@@ -1223,7 +1223,6 @@ SegY::WriteMainHeader(const TextualHeader& ebcdicHeader)
 void
 SegY::StoreTrace(double x, double y, const std::vector<float> &data, const Volume *volume, float topVal,float baseVal)
 {
-  assert(file_.good());
   assert(geometry_ != 0);
  // TraceHeader header(trace_header_format_);
  // header.SetNSamples(nz_);
-- 
2.43.0


From 67f67fa32f192f61b65c382a2733e73962f3c134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:54 +0000
Subject: [PATCH 134/139] fix: SegY from a StormContGrid wrote outside its
 traces when the grid starts above or below them

---
 src/nrlib/segy/segy.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/nrlib/segy/segy.cpp b/src/nrlib/segy/segy.cpp
index 681dfbc..4249c45 100644
--- a/src/nrlib/segy/segy.cpp
+++ b/src/nrlib/segy/segy.cpp
@@ -297,6 +297,8 @@ SegY::SegY(const StormContGrid     * storm_grid,
         z_top         -= z0;
         int first_data = static_cast<int>(floor((z_top+z_shift)/dz));
         int end_data   = static_cast<int>(floor((z_bot-z_shift)/dz));
+        first_data     = std::max(0, std::min(first_data, nz));
+        end_data       = std::max(first_data, end_data);
 
         if (end_data > nz) {
           printf("Internal warning: SEGY-grid too small (%d, %d needed). Truncating data.\n", nz, end_data);
-- 
2.43.0


From 8b497bf32abff3db4838900b8c88f3bd86b5ebbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:56 +0000
Subject: [PATCH 135/139] fix: copying a SegYTrace without trace header crashed

---
 src/nrlib/segy/segytrace.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/nrlib/segy/segytrace.cpp b/src/nrlib/segy/segytrace.cpp
index 7439fa2..0d03850 100644
--- a/src/nrlib/segy/segytrace.cpp
+++ b/src/nrlib/segy/segytrace.cpp
@@ -182,7 +182,9 @@ SegYTrace::SegYTrace(const SegYTrace& trace)
   table_index_(trace.table_index_),
   file_position_(trace.file_position_)
 {
-  trace_header_ = new TraceHeader(*trace.trace_header_);
+  trace_header_ = NULL;
+  if (trace.trace_header_ != NULL)
+    trace_header_ = new TraceHeader(*trace.trace_header_);
 }
 
 SegYTrace::~SegYTrace()
-- 
2.43.0


From 8755854ec0fdf32065c50ea9563067b8adf9db21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:56 +0000
Subject: [PATCH 136/139] fix: writing and storing traces in a volume wrote
 outside the trace when the data start above it or end below it

---
 src/nrlib/segy/segy.cpp | 47 ++++++++++++++++++++---------------------
 src/nrlib/segy/segy.hpp |  3 +++
 2 files changed, 26 insertions(+), 24 deletions(-)

diff --git a/src/nrlib/segy/segy.cpp b/src/nrlib/segy/segy.cpp
index 4249c45..8d0d5df 100644
--- a/src/nrlib/segy/segy.cpp
+++ b/src/nrlib/segy/segy.cpp
@@ -1222,6 +1222,26 @@ SegY::WriteMainHeader(const TextualHeader& ebcdicHeader)
   binary_header_->Write(file_, dz_, nz_, short(n_traces_per_ensamble_));
 }
 
+void
+SegY::PlaceData(std::vector<float>       & trace,
+                const std::vector<float> & data,
+                double                     z_top,
+                float                      top_value,
+                float                      base_value) const
+{
+  // Data above or below the range of the trace are left out.
+  long long first_data = static_cast<long long>(floor((z_top - z0_)/dz_));
+  for (size_t k = 0; k < trace.size(); k++) {
+    long long i = static_cast<long long>(k) - first_data;
+    if (i < 0)
+      trace[k] = top_value;
+    else if (i < static_cast<long long>(data.size()))
+      trace[k] = data[static_cast<size_t>(i)];
+    else
+      trace[k] = base_value;
+  }
+}
+
 void
 SegY::StoreTrace(double x, double y, const std::vector<float> &data, const Volume *volume, float topVal,float baseVal)
 {
@@ -1255,13 +1275,7 @@ SegY::StoreTrace(double x, double y, const std::vector<float> &data, const Volum
     }
     else
     {
-      size_t firstData = static_cast<size_t>((ztop-z0_) / dz_);
-      for (k = 0; k < firstData; k++)
-        trace[k] = topVal; //data[0];
-      for (k = firstData; k < firstData + data.size(); k++)
-        trace[k] = data[k - firstData];
-      for (k = firstData + data.size(); k < nz_; k++)
-        trace[k] = baseVal; //data[simbox_->getnz()-1];
+      PlaceData(trace, data, ztop, topVal, baseVal);
     }
 
     size_t index;
@@ -1323,7 +1337,6 @@ SegY::WriteTrace(double x, double y, const std::vector<float> &data, const Volum
     header.SetCrossline(XL);
     header.Write(file_);
     double ztop = z0_;
-    int nData = static_cast<int>(data.size());
     if (volume != NULL)
       ztop = volume->GetTopSurface().GetZ(x,y);
 
@@ -1337,13 +1350,7 @@ SegY::WriteTrace(double x, double y, const std::vector<float> &data, const Volum
     }
     else
     {
-      size_t firstData = static_cast<size_t>((ztop-z0_)/dz_);
-      for (k = 0 ; k < firstData; k++)
-        trace[k] = topVal; //data[0];
-      for ( ; k < firstData + nData; k++)
-        trace[k] = data[k-firstData];
-      for ( ; k < nz_; k++)
-        trace[k] = baseVal; //data[simbox_->getnz()-1];
+      PlaceData(trace, data, ztop, topVal, baseVal);
     }
     WriteBinaryFloatArray(file_,trace.begin(),trace.end());
   }
@@ -1362,12 +1369,8 @@ SegY::WriteTrace(const TraceHeader & origTraceHeader,
   traceHeader.Write(file_);
 
   double z = z0_;
-  size_t nz = nz_;
   if (volume != NULL)
-  {
     z = volume->GetTopSurface().GetZ(traceHeader.GetUtmx(),traceHeader.GetUtmy());
-    nz = static_cast<int>(data.size());
-  }
 
   std::vector<float> trace(nz_);
   if (volume != NULL && volume->GetTopSurface().IsMissing(z))
@@ -1376,11 +1379,7 @@ SegY::WriteTrace(const TraceHeader & origTraceHeader,
   }
   else
   {
-    size_t firstData = static_cast<size_t>((z-z0_)/dz_);
-
-    std::fill_n(trace.begin(), firstData, topVal);
-    std::copy(data.begin(), data.end(), trace.begin() + firstData);
-    std::fill(trace.begin() + firstData + nz, trace.end(), baseVal);
+    PlaceData(trace, data, z, topVal, baseVal);
   }
   WriteBinaryFloatArray(file_, trace.begin(), trace.end());
 }
diff --git a/src/nrlib/segy/segy.hpp b/src/nrlib/segy/segy.hpp
index c83c2d5..07ba94a 100644
--- a/src/nrlib/segy/segy.hpp
+++ b/src/nrlib/segy/segy.hpp
@@ -249,6 +249,9 @@ private:
   //      [2] is x-coord, [3] is y-coord. Allocate outside.
 
   void                      WriteMainHeader(const TextualHeader& ebcdicHeader); ///< Quasi-dummy at the moment.
+  /// Fill a trace with data that start at z_top, and the given values above and below.
+  void                      PlaceData(std::vector<float> & trace, const std::vector<float> & data,
+                                      double z_top, float top_value, float base_value) const;
   static void               SkipTraceData(NRLib::BigFile & file, int datasize, size_t nz);
   /// Used to find correct trace header format.
   bool                      CompareTraces(const TraceHeader& header1, const TraceHeader& header2,
-- 
2.43.0


From 0cb71d9f3cf0ed117a30b07c4ed46b897d6e8f7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:56 +0000
Subject: [PATCH 137/139] fix: storing a trace in the place of another leaked
 the old one

---
 src/nrlib/segy/segy.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/nrlib/segy/segy.cpp b/src/nrlib/segy/segy.cpp
index 8d0d5df..083306c 100644
--- a/src/nrlib/segy/segy.cpp
+++ b/src/nrlib/segy/segy.cpp
@@ -1284,6 +1284,7 @@ SegY::StoreTrace(double x, double y, const std::vector<float> &data, const Volum
     size_t i,j;
     geometry_->FindIndex(x, y, i, j);
     index = i + geometry_->GetNx() * j;
+    delete traces_[index];
     traces_[index] = new SegYTrace(trace, j0, j1, x, y, IL, XL);
     traces_[index]->SetTableIndex(index);
   }
-- 
2.43.0


From d8a7ef10e72abcefd2f1da6c66cdb196ae84f450 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:53 +0000
Subject: [PATCH 138/139] fix: StormContGrid::FindZInterpolatedIndex read
 outside the grid

For a point at the centre of the top or bottom cell, rounding could give
layer -1 or the layer after the last.
---
 src/nrlib/stormgrid/stormcontgrid.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/nrlib/stormgrid/stormcontgrid.cpp b/src/nrlib/stormgrid/stormcontgrid.cpp
index 0a82186..cd1432d 100644
--- a/src/nrlib/stormgrid/stormcontgrid.cpp
+++ b/src/nrlib/stormgrid/stormcontgrid.cpp
@@ -376,10 +376,12 @@ void StormContGrid::FindZInterpolatedIndex(const double & x,
     ind2 = 0;
   }
   else {
-    k    = static_cast<size_t>(floor(((z - z_top) / dz) - 0.5));
-    t    = (z-z_top)/dz - 0.5 - static_cast<double>(k);
+    double z_index = (z - z_top)/dz - 0.5;
+    // Rounding may take the index slightly outside the layers.
+    k    = std::min(static_cast<size_t>(std::max(z_index, 0.0)), GetNK()-1);
+    t    = z_index - static_cast<double>(k);
     ind1 = GetIndex(i, j, k);
-    ind2 = GetIndex(i, j, k+1);
+    ind2 = GetIndex(i, j, std::min(k+1, GetNK()-1));
   }
 }
 
-- 
2.43.0


From 06ecfdf8f4a0ecff887d571c3a3696429d251563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:44:56 +0000
Subject: [PATCH 139/139] fix: a blocked well did not know the missing codes
 its logs use

---
 src/nrlib/well/welloperations.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/nrlib/well/welloperations.hpp b/src/nrlib/well/welloperations.hpp
index de0e5c0..eb828a7 100644
--- a/src/nrlib/well/welloperations.hpp
+++ b/src/nrlib/well/welloperations.hpp
@@ -162,7 +162,11 @@ void NRLib::BlockWell(const NRLib::Well & well,
     disclognew[discnames[i]] = disclogs[i];
   }
   std::string well_name = well.GetWellName() + "blocked";
-  blocked_well = Well(contlognew, disclognew, well_name);
+  blocked_well = Well(well_name, well.GetContMissing(), well.GetIntMissing());
+  for (i = 0; i < ncont; i++)
+    blocked_well.AddContLog(contnames[i], contlognew[contnames[i]]);
+  for (i = 0; i < ndisc; i++)
+    blocked_well.AddDiscLog(discnames[i], disclognew[discnames[i]]);
 }
 
 #endif
-- 
2.43.0

