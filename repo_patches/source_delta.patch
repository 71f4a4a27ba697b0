From c45cb05642173dc22c147c019cbb3fdad8674e29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:00 +0000
Subject: [PATCH 01/87] fix: nd_project and surface sum over the right axes

---
 echidna/core/spectra.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/echidna/core/spectra.py b/echidna/core/spectra.py
index 258c0e1..65ccc99 100644
--- a/echidna/core/spectra.py
+++ b/echidna/core/spectra.py
@@ -314,7 +314,8 @@ class Spectra(object):
         if len(axes) == len(self._config.get_pars()):
             return copy.copy(self._data)
         projection = copy.copy(self._data)
-        for i_axis in range(len(self._config.get_pars())):
+        # Highest axis first, so that the remaining axes keep their index
+        for i_axis in reversed(range(len(self._config.get_pars()))):
             if i_axis not in axes:
                 projection = projection.sum(i_axis)
         return projection
@@ -593,7 +594,8 @@ class Spectra(object):
         if axis2 < 0 or axis2 > len(self._config.get_pars()):
             raise IndexError("Axis index %s out of range" % axis2)
         projection = copy.copy(self._data)
-        for i_axis in range(len(self._config.get_pars())):
+        # Highest axis first, so that the remaining axes keep their index
+        for i_axis in reversed(range(len(self._config.get_pars()))):
             if i_axis != axis1 and i_axis != axis2:
                 projection = projection.sum(i_axis)
         return projection
-- 
2.43.0


From 22f4983293d25894a5682760d2447a63de6de355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:00 +0000
Subject: [PATCH 02/87] fix: a refused rebin leaves the binning untouched

---
 echidna/core/spectra.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/echidna/core/spectra.py b/echidna/core/spectra.py
index 65ccc99..0dcde0c 100644
--- a/echidna/core/spectra.py
+++ b/echidna/core/spectra.py
@@ -360,13 +360,15 @@ class Spectra(object):
         if len(new_bins) != len(self._config.get_pars()):
             raise ValueError('Incorrect number of dimensions; need %s'
                              % len(self._config.get_pars()))
-        # Now do the rebinning
+        # Check all dimensions before changing any of them
         for i, v in enumerate(self._config.get_pars()):
             if self._config.get_par(v)._bins % new_bins[i] != 0:
                 raise ValueError("Old bins/New bins must be integer old: %s"
                                  " new: %s for parameter %s"
                                  % (self._config.get_par(v)._bins,
                                     new_bins[i], v))
+        # Now do the rebinning
+        for i, v in enumerate(self._config.get_pars()):
             self._config.get_par(v)._bins = new_bins[i]
 
         compression_pairs = [(d, c//d) for d, c in zip(new_bins,
-- 
2.43.0


From e2cc26bbc1d2307c0dfec0e3e6b2bbaa57219bed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:00 +0000
Subject: [PATCH 03/87] fix: SpectraParameter.round counts bin edges from the
 lower bound

---
 echidna/core/parameter.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/echidna/core/parameter.py b/echidna/core/parameter.py
index 2695d42..9946109 100644
--- a/echidna/core/parameter.py
+++ b/echidna/core/parameter.py
@@ -1137,7 +1137,8 @@ class SpectraParameter(Parameter):
         Returns:
           float: The value of the closest bin edge to x
         """
-        return round(x/self.get_width())*self.get_width()
+        return (self._low + round((x - self._low)/self.get_width()) *
+                self.get_width())
 
     def set_par(self, **kwargs):
         """Set a limit / binning parameter after initialisation.
-- 
2.43.0


From d172c79df7c625f294a5dc26ca42e608a828183a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:00 +0000
Subject: [PATCH 04/87] fix: shrink slices with integers and refuses empty
 ranges before changing anything

---
 echidna/core/spectra.py | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/echidna/core/spectra.py b/echidna/core/spectra.py
index 0dcde0c..fc16eb2 100644
--- a/echidna/core/spectra.py
+++ b/echidna/core/spectra.py
@@ -451,6 +451,7 @@ class Spectra(object):
           ValueError: [parameter]_high value is lower than the parameters
             higher bound.
           IndexError: Suffix to [parameter] is not _high or _low.
+          ValueError: [parameter]_low is not below [parameter]_high.
         """
         # First check dimensions and bounds in kwargs are valid
         for arg in kwargs:
@@ -479,6 +480,8 @@ class Spectra(object):
                                  "[dimension name]_low" % arg)
         slices_low = []
         slices_high = []
+        new_lows = []
+        new_highs = []
         for par_name in self._config.get_pars():
             par = self._config.get_par(par_name)
             kw_low = "%s_low" % par_name
@@ -487,11 +490,15 @@ class Spectra(object):
                 kwargs[kw_low] = par._low
             if "%s_high" % par_name not in kwargs:
                 kwargs[kw_high] = par._high
+            if kwargs[kw_low] >= kwargs[kw_high]:
+                raise ValueError("Lower limit (%s) is not below upper limit "
+                                 "(%s) for %s" % (kwargs[kw_low],
+                                                  kwargs[kw_high], par_name))
             # Round down the low bin
             low_bin = int((kwargs[kw_low] - par._low) / par.get_width())
             # Round up the high bin
-            high_bin = numpy.ceil((kwargs[kw_high] - par._low) /
-                                  par.get_width())
+            high_bin = int(numpy.ceil((kwargs[kw_high] - par._low) /
+                                      par.get_width()))
             # new_low is the new lower first bin edge
             new_low = par.round(par._low + low_bin * par.get_width())
             # new_high is the new upper last bin edge
@@ -525,10 +532,19 @@ class Spectra(object):
                     low_bin += 1
                     new_low = par._low + low_bin * par.get_width()
                 print "Corrected %s to %s" % (kw_low, new_low)
+            if high_bin <= low_bin:
+                raise ValueError("No bins of %s between %s and %s"
+                                 % (par_name, kwargs[kw_low],
+                                    kwargs[kw_high]))
             slices_high.append(high_bin)
             slices_low.append(low_bin)
-            new_bins = high_bin - low_bin
-            par.set_par(low=new_low, high=new_high, bins=new_bins)
+            new_lows.append(new_low)
+            new_highs.append(new_high)
+        # All dimensions are valid, so update the bookkeeping
+        for i, par_name in enumerate(self._config.get_pars()):
+            self._config.get_par(par_name).set_par(
+                low=new_lows[i], high=new_highs[i],
+                bins=slices_high[i] - slices_low[i])
         # First set up the command then evaluate. Hacky but hey ho.
         cmd = "self._data["
         for i in range(len(slices_low)):
-- 
2.43.0


From 2d83f96f25b7929d4d2c56b6dc4e4ac95d7893b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:00 +0000
Subject: [PATCH 05/87] fix: a copied spectrum no longer shares data and
 binning with the original

---
 echidna/core/spectra.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/echidna/core/spectra.py b/echidna/core/spectra.py
index fc16eb2..7593091 100644
--- a/echidna/core/spectra.py
+++ b/echidna/core/spectra.py
@@ -62,6 +62,22 @@ class Spectra(object):
         self._num_decays = float(num_decays)
         self._location = None
 
+    def __copy__(self):
+        """ Copies the spectrum.
+
+        The copy has its own data, binning and ROIs, so that changing it
+        (e.g. with :meth:`shrink`) does not affect this spectrum.
+
+        Returns:
+          :class:`Spectra`: The copy.
+        """
+        spectrum = self.__class__.__new__(self.__class__)
+        spectrum.__dict__.update(self.__dict__)
+        spectrum._data = copy.copy(self._data)
+        spectrum._config = copy.deepcopy(self._config)
+        spectrum._rois = copy.deepcopy(self._rois)
+        return spectrum
+
     def add(self, spectrum):
         """ Adds a spectrum to current spectra object.
 
-- 
2.43.0


From f117299b9af733fb6de534a178f4120dc40521b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:00 +0000
Subject: [PATCH 06/87] fix: adding spectra with differently ordered dimensions
 is refused

---
 echidna/core/spectra.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/echidna/core/spectra.py b/echidna/core/spectra.py
index 7593091..3588d46 100644
--- a/echidna/core/spectra.py
+++ b/echidna/core/spectra.py
@@ -91,6 +91,7 @@ class Spectra(object):
             current spectra config.
           IndexError: The current spectra does not contain a dimension(s) that
             is in the spectrum config.
+          ValueError: spectrum has its dimensions in a different order.
           ValueError: The upper bounds of a parameter in the current spectra
             and spectra are not equal.
           ValueError: The lower bounds of a parameter in the current spectra
@@ -108,6 +109,11 @@ class Spectra(object):
         for v in spectrum.get_config().get_dims():
             if v not in self._config.get_dims():
                 raise IndexError("%s not present in this spectrum" % v)
+        if [self._config.get_dim(v) for v in self._config.get_pars()] != \
+                [spectrum.get_config().get_dim(v)
+                 for v in spectrum.get_config().get_pars()]:
+            raise ValueError("The spectra have their dimensions in a "
+                             "different order.")
         # Dictionary containing dimensions which have different types in the
         # two spectra. The type of the dimension of spectrum is the value
         types = {}
-- 
2.43.0


From ef6cdff714a37c420009014cb42dbc471dc09e59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:36 +0000
Subject: [PATCH 07/87] fix: a value missing from a fit parameter's grid is
 reported as ValueError

---
 echidna/core/parameter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/echidna/core/parameter.py b/echidna/core/parameter.py
index 9946109..cdb9ade 100644
--- a/echidna/core/parameter.py
+++ b/echidna/core/parameter.py
@@ -513,7 +513,7 @@ class FitParameter(Parameter):
         """
         indices = numpy.where(self.get_values() == value)[0]
         if len(indices) == 0:
-            raise ValueError("No value %.2g found in parameter values " +
+            raise ValueError("No value %.2g found in parameter values "
                              "for parameter %s." % (value, self._name))
         return int(indices[0])
 
-- 
2.43.0


From 890469807ef6aa5314c62bb7c4afd457a335bcc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:36 +0000
Subject: [PATCH 08/87] fix: FitParameter.to_dict stores the penalty term, not
 the best fit again

---
 echidna/core/parameter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/echidna/core/parameter.py b/echidna/core/parameter.py
index cdb9ade..5a666b6 100644
--- a/echidna/core/parameter.py
+++ b/echidna/core/parameter.py
@@ -630,7 +630,7 @@ class FitParameter(Parameter):
         # Add non-basic attributes
         parameter_dict["current_value"] = self._current_value
         parameter_dict["best_fit"] = self._best_fit
-        parameter_dict["penalty_term"] = self._best_fit
+        parameter_dict["penalty_term"] = self._penalty_term
         return parameter_dict
 
 
-- 
2.43.0


From 3517e362b2c3226e24691b524721cebada077e55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:36 +0000
Subject: [PATCH 09/87] fix: FitParameter.set_par accepts every setting it
 documents and keeps bins an integer

---
 echidna/core/parameter.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/echidna/core/parameter.py b/echidna/core/parameter.py
index 5a666b6..50ed9cb 100644
--- a/echidna/core/parameter.py
+++ b/echidna/core/parameter.py
@@ -557,8 +557,8 @@ class FitParameter(Parameter):
           TypeError: Unknown variable type passed as a kwarg.
         """
         for kw in kwargs:
-            self._logger.warning("Updating value for %s (%.4g --> %.4g)" %
-                                 (kw, self.__dict__["_"+kw], kwargs[kw]))
+            self._logger.warning("Updating value for %s (%s --> %s)" %
+                                 (kw, self.__dict__.get("_"+kw), kwargs[kw]))
             if kw == "prior":
                 self._prior = float(kwargs[kw])
             elif kw == "sigma":
@@ -571,9 +571,11 @@ class FitParameter(Parameter):
             elif kw == "high":
                 self._high = float(kwargs[kw])
             elif kw == "bins":
-                self._bins = float(kwargs[kw])
+                self._bins = int(kwargs[kw])
             elif kw == "logscale":
                 self._logscale = bool(kwargs[kw])
+                if self._logscale and self._base is None:
+                    self._base = numpy.e
             elif kw == "base":
                 self._base = float(kwargs[kw])
             elif kw == "logscale_deviation":
-- 
2.43.0


From f8db15988065fdb81f9fa9f84120cfb082203176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:36 +0000
Subject: [PATCH 10/87] fix: logscale_deviation grids hold exactly bins values,
 from low to high

---
 echidna/core/parameter.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/echidna/core/parameter.py b/echidna/core/parameter.py
index 50ed9cb..4c3dadc 100644
--- a/echidna/core/parameter.py
+++ b/echidna/core/parameter.py
@@ -459,11 +459,16 @@ class FitParameter(Parameter):
                 delta_low = numpy.absolute(self._low - self._prior)
                 delta_high = numpy.absolute(self._high - self._prior)
 
-                # Calculate bins above and below, distributing evenly
-                bins_low = numpy.rint(
-                    (delta_low) / (delta_low + delta_high) * (self._bins + 1))
-                bins_high = numpy.rint(
-                    (delta_high) / (delta_low + delta_high) * (self._bins + 1))
+                # Calculate bins above and below, distributing evenly. The
+                # prior counts in both, and a side that has any extent also
+                # needs a bin for its limit.
+                min_low = 2 if delta_low > 0. else 1
+                min_high = 2 if delta_high > 0. else 1
+                bins_low = int(numpy.rint(
+                    (delta_low) / (delta_low + delta_high) * (self._bins + 1)))
+                bins_low = max(min_low,
+                               min(bins_low, self._bins + 1 - min_high))
+                bins_high = self._bins + 1 - bins_low
 
                 # Calculate arrays of deviation, linear in logspace
                 deltas_low = numpy.linspace(
-- 
2.43.0


From c55741c208fdbd07a0bf08f53a6081846c53185d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:36 +0000
Subject: [PATCH 11/87] fix: GlobalFitConfig.load keeps the name given by the
 caller

---
 echidna/core/config.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/echidna/core/config.py b/echidna/core/config.py
index c1cbadf..faffbf6 100644
--- a/echidna/core/config.py
+++ b/echidna/core/config.py
@@ -440,23 +440,23 @@ class GlobalFitConfig(Config):
                            "Please check it has the correct form")
         for dim in global_config[main_key]:
             for syst in global_config[main_key][dim]:
-                name = dim + "_" + syst
+                par_name = dim + "_" + syst
                 if syst == 'resolution' or syst == 'resolution_ly':
-                    parameters[name] = {
+                    parameters[par_name] = {
                         'par': ResolutionParameter(
-                            name, dimension=dim,
+                            par_name, dimension=dim,
                             **global_config[main_key][dim][syst]),
                         'type': 'global'}
                 elif syst == 'shift':
-                    parameters[name] = {
+                    parameters[par_name] = {
                         'par': ShiftParameter(
-                            name, dimension=dim,
+                            par_name, dimension=dim,
                             **global_config[main_key][dim][syst]),
                         'type': 'global'}
                 elif syst == 'scale':
-                    parameters[name] = {
+                    parameters[par_name] = {
                         'par': ScaleParameter(
-                            name, dimension=dim,
+                            par_name, dimension=dim,
                             **global_config[main_key][dim][syst]),
                         'type': 'global'}
                 else:
-- 
2.43.0


From e3df85c1a870b8d65e3aab2234c1f2eb1afb1b41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:36 +0000
Subject: [PATCH 12/87] fix: a blank name makes load_from_file use the file's
 name

---
 echidna/core/config.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/echidna/core/config.py b/echidna/core/config.py
index faffbf6..79f0435 100644
--- a/echidna/core/config.py
+++ b/echidna/core/config.py
@@ -505,7 +505,7 @@ class GlobalFitConfig(Config):
                 open(sf_filename, "r"))
         else:
             spectral_fit_config = None
-        if not name:
+        if name is None:
             return cls.load(config, spectral_config=spectral_fit_config)
         if name == "":
             name = filename[filename.rfind("/")+1:filename.rfind(".")]
@@ -650,7 +650,7 @@ class SpectraFitConfig(Config):
             parameters in the file.
         """
         config = yaml_loader.ordered_load(open(filename, 'r'))
-        if not name:
+        if name is None:
             return cls.load(config, spectra_name)
         if name == "":
             name = filename[filename.rfind("/")+1:filename.rfind(".")]
@@ -774,7 +774,7 @@ class SpectraConfig(Config):
         """
         with open(filename, 'r') as stream:
             config = yaml_loader.ordered_load(stream)
-        if not name:
+        if name is None:
             return cls.load(config)
         if name == "":
             name = filename[filename.rfind("/")+1:filename.rfind(".")]
-- 
2.43.0


From 0a86968bc747a10885a523a8a85565b6259b18c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:36 +0000
Subject: [PATCH 13/87] fix: Config.get_type returns the type of the config

---
 echidna/core/config.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/echidna/core/config.py b/echidna/core/config.py
index 79f0435..9cb271c 100644
--- a/echidna/core/config.py
+++ b/echidna/core/config.py
@@ -148,9 +148,9 @@ class Config(object):
         """
         Returns:
           string: Type of :class:`Config` class instance - stored in
-            :attr:`_name`.
+            :attr:`_type`.
         """
-        return self._name
+        return self._type
 
     @classmethod
     @abc.abstractmethod
-- 
2.43.0


From a840b72300aae8851bc41465ddde4b3df6f3390d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:16 +0000
Subject: [PATCH 14/87] fix: shifts by whole bins are recognised when the
 remainder rounds to one bin width

---
 echidna/core/shift.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/echidna/core/shift.py b/echidna/core/shift.py
index 4aceee4..86aaf5d 100644
--- a/echidna/core/shift.py
+++ b/echidna/core/shift.py
@@ -44,7 +44,7 @@ class Shift(object):
         """
         shift = self.get_shift()
         step = spectrum.get_config().get_par(dimension).get_width()
-        if numpy.isclose(shift % step, 0.):
+        if numpy.isclose(shift / step, numpy.rint(shift / step)):
             # shift size multiple of step size. Interpolation not required.
             return self.shift_by_bin(spectrum, dimension)
         preshift_sum = spectrum.sum()
@@ -181,7 +181,7 @@ class Shift(object):
         """
         shift = self.get_shift()
         step = spectrum.get_config().get_par(dimension).get_width()
-        if not numpy.isclose(shift % step, 0.):
+        if not numpy.isclose(shift / step, numpy.rint(shift / step)):
             raise ValueError("Shift (%s) must be a multiple of bin width (%s)"
                              % (shift, step))
         shifted_spec = copy.copy(spectrum)
-- 
2.43.0


From 2acf7f60bcb45924c57889f7b9eb8857b5fd8602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:16 +0000
Subject: [PATCH 15/87] fix: shifting or scaling everything out of range leaves
 an empty spectrum

---
 echidna/core/scale.py | 7 ++++---
 echidna/core/shift.py | 7 ++++---
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/echidna/core/scale.py b/echidna/core/scale.py
index c0dba9a..68fe17c 100644
--- a/echidna/core/scale.py
+++ b/echidna/core/scale.py
@@ -165,7 +165,8 @@ class Scale(object):
                             "scale2 * (y / unscaled_sum2)")
                 exec(fill_cmd)
         # renormalise to prescale number of counts
-        scaled_spec._num_decays = scaled_spec.sum()
-        scaled_spec.scale(prescale_sum)
-        scaled_spec._num_decays = spectrum._num_decays
+        if scaled_spec.sum() > 0.:  # otherwise no counts left in range
+            scaled_spec._num_decays = scaled_spec.sum()
+            scaled_spec.scale(prescale_sum)
+            scaled_spec._num_decays = spectrum._num_decays
         return scaled_spec
diff --git a/echidna/core/shift.py b/echidna/core/shift.py
index 86aaf5d..1777ba7 100644
--- a/echidna/core/shift.py
+++ b/echidna/core/shift.py
@@ -162,9 +162,10 @@ class Shift(object):
                             "old_data2 * scale2 * (y / unshifted_sum2)")
                 exec(fill_cmd)
         # renormalise to prescale number of counts
-        shifted_spec._num_decays = shifted_spec.sum()
-        shifted_spec.scale(preshift_sum)
-        shifted_spec._num_decays = spectrum._num_decays
+        if shifted_spec.sum() > 0.:  # otherwise no counts left in range
+            shifted_spec._num_decays = shifted_spec.sum()
+            shifted_spec.scale(preshift_sum)
+            shifted_spec._num_decays = spectrum._num_decays
         return shifted_spec
 
     def shift_by_bin(self, spectrum, dimension):
-- 
2.43.0


From f9b4fce78245714081389be12701fbde7c5d2f8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:27 +0000
Subject: [PATCH 16/87] fix: smearing fills the last bin and keeps its contents

numpy.arange excludes its end, so stopping at the centre of the last bin
left that bin empty (and dropped contents smeared only into it).
---
 echidna/core/smear.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/echidna/core/smear.py b/echidna/core/smear.py
index a8bcdb7..e45cd41 100644
--- a/echidna/core/smear.py
+++ b/echidna/core/smear.py
@@ -260,8 +260,7 @@ class EnergySmearLY(Smear):
                             low = spectrum.get_config().get_par(par)._low + \
                                 0.5 * widths[i]
                         if high > spectrum.get_config().get_par(par)._high:
-                            high = spectrum.get_config().get_par(par)._high - \
-                                0.5 * widths[i]
+                            high = spectrum.get_config().get_par(par)._high
                         weights = []
                         for energy in numpy.arange(low, high, widths[i]):
                             if self._poisson_smear is True:
@@ -508,8 +507,7 @@ class EnergySmearRes(Smear):
                             low = spectrum.get_config().get_par(par)._low + \
                                 0.5 * widths[i]
                         if high > spectrum.get_config().get_par(par)._high:
-                            high = spectrum.get_config().get_par(par)._high - \
-                                0.5 * widths[i]
+                            high = spectrum.get_config().get_par(par)._high
                         weights = []
                         for energy in numpy.arange(low, high, widths[i]):
                             if self._poisson_smear is True:
@@ -726,8 +724,7 @@ class RadialSmear(Smear):
                             low = spectrum.get_config().get_par(par)._low + \
                                 0.5 * widths[i]
                         if high > spectrum.get_config().get_par(par)._high:
-                            high = spectrum.get_config().get_par(par)._high - \
-                                0.5 * widths[i]
+                            high = spectrum.get_config().get_par(par)._high
                         weights = []
                         for radius in numpy.arange(low, high, widths[i]):
                             weights.append(self.calc_gaussian(radius,
-- 
2.43.0


From e9a4c58168880aba778c3f12ced594367c22b826 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:27 +0000
Subject: [PATCH 17/87] fix: poisson smearing with an energy resolution uses
 that resolution

---
 echidna/core/smear.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/echidna/core/smear.py b/echidna/core/smear.py
index e45cd41..614066c 100644
--- a/echidna/core/smear.py
+++ b/echidna/core/smear.py
@@ -449,6 +449,8 @@ class EnergySmearRes(Smear):
         """
         if (resolution > 0. and resolution < 1.):
             self._resolution = resolution
+            # Light yield equivalent to resolution, for poisson smearing
+            self._light_yield = 1. / resolution ** 2
         else:
             raise ValueError("%s is an invalid energy resolution. Value "
                              "must be between 0. and 1." % resolution)
-- 
2.43.0


From 6dad3c1fb3322226b424488c01382979e63b7012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:17 +0000
Subject: [PATCH 18/87] fix: random smearing of radii counts whole events

The contents of a bin are floats, which range() refuses.
---
 echidna/core/smear.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/echidna/core/smear.py b/echidna/core/smear.py
index 614066c..1ce1e0e 100644
--- a/echidna/core/smear.py
+++ b/echidna/core/smear.py
@@ -780,7 +780,7 @@ class RadialSmear(Smear):
                               str(100. * self._resolution) + "mm")
         smeared_spec._data = numpy.zeros(spectrum._data.shape)
         for bin in itertools.product(*bins):
-            entries = spectrum._data[bin]
+            entries = int(spectrum._data[bin])
             if entries:
                 data = {}
                 for i in range(len(bin)):
-- 
2.43.0


From 299753fbf7a4ec58362f89f0ca381f341b6669bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:02 +0000
Subject: [PATCH 19/87] fix: the grid search indexes its grids with integers

---
 echidna/fit/minimise.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/echidna/fit/minimise.py b/echidna/fit/minimise.py
index 36307ec..898fa62 100644
--- a/echidna/fit/minimise.py
+++ b/echidna/fit/minimise.py
@@ -582,7 +582,7 @@ class GridSearch(FitResults, Minimiser):
         product = 1  # product of dimensions
         for dim in new_coords.shape:
             product *= dim
-            multiplier += len(coords) / product
+            multiplier += len(coords) // product
 
         # Calculate indices
         indices = [i * multiplier + j for i, j in enumerate(new_coords)]
@@ -668,7 +668,7 @@ class GridSearch(FitResults, Minimiser):
         """
         index = 0
         values = numpy.zeros((len(self._fit_config.get_pars())))
-        indices = numpy.zeros((len(self._fit_config.get_pars())))
+        indices = numpy.zeros((len(self._fit_config.get_pars())), dtype=int)
         for values, indices in self._get_values(index, values, indices):
             yield values, indices
 
-- 
2.43.0


From 05f832571f6919986e564d6dfaa82e97889cc1d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:02 +0000
Subject: [PATCH 20/87] fix: GridSearch without a name is named after the fit
 config

---
 echidna/fit/minimise.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/echidna/fit/minimise.py b/echidna/fit/minimise.py
index 898fa62..7ffb3f0 100644
--- a/echidna/fit/minimise.py
+++ b/echidna/fit/minimise.py
@@ -90,7 +90,7 @@ class GridSearch(FitResults, Minimiser):
     def __init__(self, fit_config, spectra_config,
                  name=None, per_bin=False, use_numpy=True):
         super(GridSearch, self).__init__(fit_config, spectra_config, name=name)
-        Minimiser.__init__(self, name, GridSearch, per_bin)
+        Minimiser.__init__(self, self._name, GridSearch, per_bin)
         if per_bin:
             stats_shape = fit_config.get_shape() + spectra_config.get_shape()
         else:
-- 
2.43.0


From 37f2107a73748fe8eb33f531bc29ba00e5079f46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:02 +0000
Subject: [PATCH 21/87] fix: the shape of per-bin results is checked

The check was only reachable after a raise.
---
 echidna/fit/minimise.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/echidna/fit/minimise.py b/echidna/fit/minimise.py
index 7ffb3f0..2b786b7 100644
--- a/echidna/fit/minimise.py
+++ b/echidna/fit/minimise.py
@@ -328,12 +328,12 @@ class GridSearch(FitResults, Minimiser):
                     raise TypeError("Expecting result of type numpy.ndarray "
                                     "(not %s), for per_bin enabled" %
                                     type(result))
-                    expected_shape = self._spectra_config.get_shape()
-                    if result.shape != expected_shape:
-                        raise ValueError(
-                            "Expecting result to be numpy array with shape "
-                            "%s (not %s), for per_bin enabled" %
-                            (str(expected_shape), str(result.shape)))
+                expected_shape = self._spectra_config.get_shape()
+                if result.shape != expected_shape:
+                    raise ValueError(
+                        "Expecting result to be numpy array with shape "
+                        "%s (not %s), for per_bin enabled" %
+                        (str(expected_shape), str(result.shape)))
             else:
                 result = numpy.array(result)
             self.set_stat(result, tuple(indices))
-- 
2.43.0


From e33b3e2d9c8628fbb8b7419f6fe9d452e4b97dab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:02 +0000
Subject: [PATCH 22/87] fix: grid indices are checked along every dimension

Tuples compare lexicographically, so too few (or negative) indices were
accepted and addressed other grid points, or a whole slice of them.
---
 echidna/fit/minimise.py | 37 +++++++++++++++++++++----------------
 1 file changed, 21 insertions(+), 16 deletions(-)

diff --git a/echidna/fit/minimise.py b/echidna/fit/minimise.py
index 2b786b7..5b897e7 100644
--- a/echidna/fit/minimise.py
+++ b/echidna/fit/minimise.py
@@ -135,10 +135,7 @@ class GridSearch(FitResults, Minimiser):
           IndexError: If the indices supplied are out of bounds for
             the fit dimensions
         """
-        if indices > self._fit_config.get_shape():
-            raise IndexError(
-                "indices %s out of bounds for fit with dimensions %s" %
-                (str(indices), str(self._fit_config.get_shape())))
+        self._check_indices(indices)
         return self._penalty_terms[indices]
 
     def get_penalty_terms(self, par):
@@ -262,10 +259,7 @@ class GridSearch(FitResults, Minimiser):
           IndexError: If the indices supplied are out of bounds for
             the fit dimensions
         """
-        if indices > self._fit_config.get_shape():
-            raise IndexError(
-                "indices %s out of bounds for fit with dimensions %s" %
-                (str(indices), str(self._fit_config.get_shape())))
+        self._check_indices(indices)
         combined = copy.copy(self._stats[indices])
 
         if self._per_bin:
@@ -512,10 +506,7 @@ class GridSearch(FitResults, Minimiser):
           IndexError: If the indices supplied are out of bounds for
             the fit dimensions
         """
-        if indices > self._fit_config.get_shape():
-            raise IndexError(
-                "indices %s out of bounds for fit with dimensions %s" %
-                (str(indices), str(self._fit_config.get_shape())))
+        self._check_indices(indices)
         self._penalty_terms[indices] = penalty_term
 
     def set_stat(self, stat, indices):
@@ -531,10 +522,7 @@ class GridSearch(FitResults, Minimiser):
             the fit dimensions
           TypeError: If stat is not a :class:`numpy.ndarray`.
         """
-        if indices > self._fit_config.get_shape():
-            raise IndexError(
-                "indices %s out of bounds for fit with dimensions %s" %
-                (str(indices), str(self._fit_config.get_shape())))
+        self._check_indices(indices)
         if not isinstance(stat, numpy.ndarray):
             raise TypeError("stat must be a numpy array")
         self._stats[indices] = stat
@@ -557,6 +545,23 @@ class GridSearch(FitResults, Minimiser):
                              (str(stats.shape), str(self._stats.shape)))
         self._stats = stats
 
+    def _check_indices(self, indices):
+        """ Internal method to check indices of a single grid point.
+
+        Args:
+          indices (tuple): The index along each fit parameter dimension.
+
+        Raises:
+          IndexError: If the indices supplied are out of bounds for
+            the fit dimensions
+        """
+        shape = self._fit_config.get_shape()
+        if (len(indices) != len(shape) or
+                not all(0 <= i < n for i, n in zip(indices, shape))):
+            raise IndexError(
+                "indices %s out of bounds for fit with dimensions %s" %
+                (str(indices), str(shape)))
+
     def _update_coords(self, coords, new_coords):
         """ Internal method called by :meth:`find_minimum` to update the
         stored co-ordinates of minima.
-- 
2.43.0


From c2299e62891f360746c41fd4d470f0e0626c2fd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:02 +0000
Subject: [PATCH 23/87] fix: raw statistics can be selected by parameter values

---
 echidna/fit/minimise.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/echidna/fit/minimise.py b/echidna/fit/minimise.py
index 5b897e7..d5abab4 100644
--- a/echidna/fit/minimise.py
+++ b/echidna/fit/minimise.py
@@ -190,7 +190,7 @@ class GridSearch(FitResults, Minimiser):
             cmd = "stats["
             for par in self._fit_config.get_pars():
                 if par in kwargs:
-                    idx = par.get_bin(kwargs[par])
+                    idx = self._fit_config.get_par(par).get_bin(kwargs[par])
                     cmd += str(idx)+","
                 else:
                     cmd += ":,"
-- 
2.43.0


From 0c1d22ac1a5ac91c862b152568a2bf50b862adb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:02 +0000
Subject: [PATCH 24/87] fix: get_raw_stats_at works for a single statistic per
 grid point

---
 echidna/fit/minimise.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/echidna/fit/minimise.py b/echidna/fit/minimise.py
index d5abab4..8db6377 100644
--- a/echidna/fit/minimise.py
+++ b/echidna/fit/minimise.py
@@ -212,11 +212,9 @@ class GridSearch(FitResults, Minimiser):
             par = self._fit_config.get_par(par_name)
             bins.append(par.get_bin(kwargs[par_name]))
         stats = copy.copy(self._stats[tuple(bins)])
-        while stats.shape[0] == 1:
+        while stats.shape and stats.shape[0] == 1:
             stats = stats.sum(0)
-        if type(stats) is float:
-            return stats
-        while stats.shape[-1] == 1:
+        while stats.shape and stats.shape[-1] == 1:
             stats = stats.sum(-1)
         return stats
 
-- 
2.43.0


From bf65aa1a3affaf0189682bfcc94c8eefba1d1db9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:02 +0000
Subject: [PATCH 25/87] fix: resetting the grids keeps the shape of the
 statistics

---
 echidna/fit/minimise.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/echidna/fit/minimise.py b/echidna/fit/minimise.py
index 8db6377..593170a 100644
--- a/echidna/fit/minimise.py
+++ b/echidna/fit/minimise.py
@@ -464,8 +464,9 @@ class GridSearch(FitResults, Minimiser):
                 new_name += "_" + part
             self._resets += 1
             self._name = new_name + "_" + str(self._resets)
-        stats_shape = (self._fit_config.get_shape() +
-                       self._spectra_config.get_shape())
+        stats_shape = self._fit_config.get_shape()
+        if self._per_bin:
+            stats_shape += self._spectra_config.get_shape()
         self._stats = numpy.zeros(stats_shape)
         self._penalty_terms = numpy.zeros(self._fit_config.get_shape())
 
-- 
2.43.0


From e0e145a6dff690fe0067ed36336f642f9b6d2339 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:02 +0000
Subject: [PATCH 26/87] fix: statistics can be projected onto fit and spectral
 parameters

---
 echidna/fit/minimise.py | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/echidna/fit/minimise.py b/echidna/fit/minimise.py
index 593170a..ccff475 100644
--- a/echidna/fit/minimise.py
+++ b/echidna/fit/minimise.py
@@ -6,6 +6,7 @@ from echidna.fit.fit_results import FitResults
 
 import copy
 import abc
+import itertools
 
 
 class Minimiser(object):
@@ -388,19 +389,17 @@ class GridSearch(FitResults, Minimiser):
                     self._fit_config.get_pars(),
                     self._spectra_config.get_pars()):
                 raise IndexError("Unknown parameter %s" % parameter)
-        if parameters in self._fit_config.get_pars():
+        if all(par in self._fit_config.get_pars() for par in parameters):
             # Can apply penalty term contributions
             projection = self.get_stat(indices)
-            for axis, parameter in self._fit_config.get_pars():
-                if parameter not in parameters:
-                    projection = numpy.sum(projection, axis=axis)
         else:  # No penalty terms, use raw stats
+            self._check_indices(indices)
             projection = copy.copy(self.get_raw_stat(indices))
-            for axis, parameter in enumerate(
-                    itertools.chain(self._fit_config.get_pars(),
-                                    self._spectra_config.get_pars())):
+            counter = 0
+            for axis, parameter in enumerate(self._spectra_config.get_pars()):
                 if parameter not in parameters:
-                    projection = numpy.sum(projection, axis=axis)
+                    projection = numpy.sum(projection, axis=(axis-counter))
+                    counter = counter + 1  # compensate for earlier sums
         return projection
 
     def nd_project_stats(self, *parameters):
@@ -430,15 +429,16 @@ class GridSearch(FitResults, Minimiser):
                     self._fit_config.get_pars(),
                     self._spectra_config.get_pars()):
                 raise IndexError("Unknown parameter %s" % parameter)
-        if parameters in self._fit_config.get_pars():
+        counter = 0
+        if all(par in self._fit_config.get_pars() for par in parameters):
             # Can apply penalty term contributions
             projection = self.get_stats()
-            for axis, parameter in self._fit_config.get_pars():
+            for axis, parameter in enumerate(self._fit_config.get_pars()):
                 if parameter not in parameters:
-                    projection = numpy.sum(projection, axis=axis)
+                    projection = numpy.sum(projection, axis=(axis-counter))
+                    counter = counter + 1  # compensate for earlier sums
         else:  # No penalty terms, use raw stats
-            projection = copy.copy(self.get_raw_stats())
-            counter = 0
+            projection = copy.copy(self._stats)
             for axis, parameter in enumerate(
                     itertools.chain(self._fit_config.get_pars(),
                                     self._spectra_config.get_pars())):
-- 
2.43.0


From 61f18dc0bf3863efa7f845c5c2f76e5c4de3bfd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:02 +0000
Subject: [PATCH 27/87] fix: LimitResults.get_limit_stat returns the recorded
 statistic

---
 echidna/fit/fit_results.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/echidna/fit/fit_results.py b/echidna/fit/fit_results.py
index 9f35a0d..c8cfa04 100644
--- a/echidna/fit/fit_results.py
+++ b/echidna/fit/fit_results.py
@@ -210,7 +210,7 @@ class LimitResults(FitResults):
         Returns:
           float: The test statistic without the penalty contribution.
         """
-        return self._limit_stat[i]
+        return self._stats[i]
 
     def get_stats(self):
         """Gets the test statistics without the penalty contribution.
-- 
2.43.0


From 593a8a5886569146c7dace5a944f4cfed8f46f5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:39 +0000
Subject: [PATCH 28/87] fix: store no longer imports a module that does not
 exist

---
 echidna/output/store.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/echidna/output/store.py b/echidna/output/store.py
index 9a94df9..905a0de 100644
--- a/echidna/output/store.py
+++ b/echidna/output/store.py
@@ -3,7 +3,6 @@ import numpy
 from echidna.core.spectra import Spectra
 from echidna.core.config import (SpectraConfig, SpectraParameter,
                                  SpectraFitConfig, GlobalFitConfig)
-from echidna.limit.summary import Summary, ReducedSummary
 from echidna.fit.fit_results import FitResults, LimitResults
 from echidna.fit.minimise import GridSearch
 
-- 
2.43.0


From 528e8c1c1a0d26efbbbd4d71adaf8c47820ff591 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:39 +0000
Subject: [PATCH 29/87] fix: several spectra can be stored in one file, as
 Limit.get_limit expects

---
 echidna/output/store.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/echidna/output/store.py b/echidna/output/store.py
index 905a0de..2d6c553 100644
--- a/echidna/output/store.py
+++ b/echidna/output/store.py
@@ -78,14 +78,19 @@ def string_to_dict(in_string):
     return out_dict
 
 
-def dump(file_path, spectrum, append=False, overwrite=False):
+def dump(file_path, spectrum, append=False, overwrite=False,
+         group_name="spectrum"):
     """ Dump the spectrum to the file_path.
 
     Args:
       file_path (string): Location to save to.
       spectrum (:class:`spectra.Spectra`): The spectrum to save
+      append (bool, optional): Append to existing hdf5 file.
+      overwrite (bool, optional): Replace an existing group of the same
+        name.
+      group_name (string, optional): Name of the group to save to.
+        Several spectra can be saved to one file with different groups.
     """
-    group_name = "spectrum"
     if append:
         file_opt = "a"
     else:
@@ -242,16 +247,17 @@ def dump_limit_results(file_path, limit_results, append=False):
                  (limit_results.get_name(), file_path))
 
 
-def load(file_path):
+def load(file_path, group_name="spectrum"):
     """ Load a spectrum from file_path.
 
     Args:
       file_path (string): Location to save to.
+      group_name (string, optional): Name of the group the spectrum was
+        saved to.
 
     Returns:
       Loaded spectrum (:class:`spectra.Spectra`).
     """
-    group_name = "spectrum"
     try:
         with h5py.File(file_path, "r") as file_:
             group = file_[group_name]
-- 
2.43.0


From e73ca0108b1ea8409f96f566957affed571e53bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:57 +0000
Subject: [PATCH 30/87] fix: a supplied min_stat of zero, or an array, is used
 by get_limit

---
 echidna/limit/limit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/echidna/limit/limit.py b/echidna/limit/limit.py
index aa33dcc..e8b7808 100644
--- a/echidna/limit/limit.py
+++ b/echidna/limit/limit.py
@@ -120,7 +120,7 @@ class Limit(object):
         """
         par = self._signal.get_fit_config().get_par("rate")
 
-        if min_stat:  # If supplied specific stat_zero use this
+        if min_stat is not None:  # If supplied specific stat_zero use this
             self._logger.warning("Overriding min_stat with supplied value")
             logging.getLogger("extra").warning(" --> %s" % min_stat)
         else:  # check zero signal stat in case its not in self._stats
-- 
2.43.0


From 4664488b3aa62f5ded1e90881b1cb9f243b700a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:57 +0000
Subject: [PATCH 31/87] fix: LimitResults.get_full_stats gives one value per
 signal scale

---
 echidna/fit/fit_results.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/echidna/fit/fit_results.py b/echidna/fit/fit_results.py
index c8cfa04..4090036 100644
--- a/echidna/fit/fit_results.py
+++ b/echidna/fit/fit_results.py
@@ -192,7 +192,7 @@ class LimitResults(FitResults):
         Returns:
           numpy.ndarray: The test statistics array with penalty terms addded.
         """
-        stats = numpy.zeros(self._stats.shape)
+        stats = numpy.zeros(len(self._stats))
         for i, stat in enumerate(self._stats):
             stat = numpy.sum(stat)
             for penalty in self._penalty_terms[i]:
-- 
2.43.0


From b2ecec58f712eb214c314f6e370525d0dddce2e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:57 +0000
Subject: [PATCH 32/87] fix: the limit is searched above the minimum of the
 statistic it is set on

---
 echidna/limit/limit.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/echidna/limit/limit.py b/echidna/limit/limit.py
index e8b7808..11e4f71 100644
--- a/echidna/limit/limit.py
+++ b/echidna/limit/limit.py
@@ -181,12 +181,12 @@ class Limit(object):
         # Convert stats to delta - subtracting minimum
         stats -= min_stat
 
-        # Also want to know index of minimum
-        min_bin = numpy.argmin(stats)
-
         self._limit_results._stats = stats
         stats = self._limit_results.get_full_stats()
 
+        # Also want to know index of minimum
+        min_bin = numpy.argmin(stats)
+
         try:
             # Slice from min_bin upwards
             log_text = ""
-- 
2.43.0


From 2d041c99652da52fb5f8d0cfb40b40c6d5baf10f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:58 +0000
Subject: [PATCH 33/87] fix: get_limit handles fit parameters without a penalty
 (sigma None)

---
 echidna/limit/limit.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/echidna/limit/limit.py b/echidna/limit/limit.py
index 11e4f71..4e340ba 100644
--- a/echidna/limit/limit.py
+++ b/echidna/limit/limit.py
@@ -202,7 +202,7 @@ class Limit(object):
                                                               parameter))
                 log_text += ("Prior: %.4g\n" %
                              cur_par.get_prior())
-                log_text += ("Sigma: %.4g\n" %
+                log_text += ("Sigma: %s\n" %
                              cur_par.get_sigma())
                 log_text += ("Penalty term: %.4g\n" %
                              self._limit_results.get_penalty_term(i_limit,
@@ -263,7 +263,7 @@ class Limit(object):
                              self._limit_results.get_best_fit(i_limit,
                                                               parameter))
                 log_text += ("Prior: %.4g\n" % cur_par.get_prior())
-                log_text += ("Sigma: %.4g\n" % cur_par.get_sigma())
+                log_text += ("Sigma: %s\n" % cur_par.get_sigma())
                 log_text += ("Penalty term: %.4g\n" %
                              self._limit_results.get_penalty_term(i_limit,
                                                                   parameter))
-- 
2.43.0


From a187e49114d6a13622fac6497e9e38a7dd04e1c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:24 +0000
Subject: [PATCH 34/87] fix: the limit log and error report the values of the
 scale they are about

---
 echidna/limit/limit.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/echidna/limit/limit.py b/echidna/limit/limit.py
index 4e340ba..0f32e70 100644
--- a/echidna/limit/limit.py
+++ b/echidna/limit/limit.py
@@ -190,10 +190,10 @@ class Limit(object):
         try:
             # Slice from min_bin upwards
             log_text = ""
-            i_limit = numpy.where(stats[min_bin:] > limit)[0][0]
-            limit = par.get_values()[min_bin + i_limit]
+            i_limit = min_bin + numpy.where(stats[min_bin:] > limit)[0][0]
+            scale = par.get_values()[i_limit]
             log_text += "\n===== Limit Summary =====\nLimit found at:\n"
-            log_text += "Signal Decays: %.4g\n" % limit
+            log_text += "Signal Decays: %.4g\n" % scale
             for parameter in self._fitter.get_fit_config().get_pars():
                 cur_par = self._fitter.get_fit_config().get_par(parameter)
                 log_text += "--- systematic: %s ---\n" % parameter
@@ -247,15 +247,15 @@ class Limit(object):
                 store.dump(path + fname, self._signal, append=True,
                            group_name="signal")
 
-            return limit
+            return scale
 
         except IndexError as detail:
             # Slice from min_bin upwards
             log_text = ""
-            i_limit = numpy.argmax(stats[min_bin:])
-            limit = par.get_values()[min_bin + i_limit]
+            i_limit = min_bin + numpy.argmax(stats[min_bin:])
+            scale = par.get_values()[i_limit]
             log_text += "\n===== Limit Summary =====\nNo limit found:\n"
-            log_text += "Signal Decays (at max stat): %.4g\n" % limit
+            log_text += "Signal Decays (at max stat): %.4g\n" % scale
             for parameter in self._fitter.get_fit_config().get_pars():
                 cur_par = self._fitter.get_fit_config().get_par(parameter)
                 log_text += "--- systematic: %s ---\n" % parameter
-- 
2.43.0


From b6dcd123c56eb2e525fb679e2482a7f41fcb390a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:32 +0000
Subject: [PATCH 35/87] fix: results are stored as requested also when no limit
 is found

---
 echidna/limit/limit.py | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/echidna/limit/limit.py b/echidna/limit/limit.py
index 0f32e70..27b44b5 100644
--- a/echidna/limit/limit.py
+++ b/echidna/limit/limit.py
@@ -273,26 +273,37 @@ class Limit(object):
             logging.getLogger("extra").info("\n%s" % log_text)
 
             if store_limit:
-                timestamp = datetime.datetime.now().strftime(
-                    "%Y-%m-%d_%H-%M-%S")
-                path = output.__default_save_path__ + "/"
-                fname = (self._limit_results.get_name() + "_" + timestamp +
-                         ".hdf5")
-                store.dump_limit_results(path + fname, self._limit_results)
+                if limit_fname:
+                    if limit_fname[-5:] != '.hdf5':
+                        limit_fname += '.hdf5'
+                else:
+                    timestamp = datetime.datetime.now().strftime(
+                        "%Y-%m-%d_%H-%M-%S")
+                    path = output.__default_save_path__ + "/"
+                    fname = (self._limit_results.get_name() + "_" + timestamp +
+                             ".hdf5")
+                    limit_fname = path + fname
+                store.dump_limit_results(limit_fname, self._limit_results)
                 self._logger.info("Saved summary of %s to file %s" %
                                   (self._limit_results.get_name(),
-                                   path + fname))
+                                   limit_fname))
             if store_spectra:
+                path = output.__default_save_path__ + "/"
+                fname = self._fitter.get_data()._name + "_data.hdf5"
                 store.dump(path + fname, self._fitter.get_data(),
                            append=True, group_name="data")
                 if self._fitter.get_fixed_background():
+                    fname = (self._fitter.get_fixed_background()._name +
+                             "_fixed.hdf5")
                     store.dump(path + fname,
                                self._fitter.get_fixed_background(),
                                append=True, group_name="fixed")
                 if self._fitter.get_floating_backgrounds():
                     for background in self._fitter.get_floating_backgrounds():
+                        fname = background._name + "_float.hdf5"
                         store.dump(path + fname, background, append=True,
                                    group_name=background.get_name())
+                fname = self._signal._name + "_signal.hdf5"
                 store.dump(path + fname, self._signal, append=True,
                            group_name="signal")
             self._logger.error("Recieived: IndexError: %s" % detail)
-- 
2.43.0


From 87daed3b0431228a40d3507081571c342eff25eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:16:48 +0000
Subject: [PATCH 36/87] fix: fitting no longer rescales, shrinks and rebins the
 floating backgrounds in place

---
 echidna/fit/fit.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/echidna/fit/fit.py b/echidna/fit/fit.py
index 9809817..5a7839c 100644
--- a/echidna/fit/fit.py
+++ b/echidna/fit/fit.py
@@ -509,6 +509,10 @@ class Fit(object):
                 else:
                     spectrum = self._global_dict[background_name][cur_val]
 
+            # Work on a copy, so that neither the caller's nor the cached
+            # spectrum is changed (scaling to zero cannot be undone)
+            spectrum = copy.copy(spectrum)
+
             # Apply spectrum-specific parameters
             if spectrum._fit_config:
                 for par_name in spectrum._fit_config.get_pars():
-- 
2.43.0


From d19bd206e6836f04bc943e3ddbb051ec2ad6a3d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:16:48 +0000
Subject: [PATCH 37/87] fix: every global parameter is applied to the signal,
 not just the last

---
 echidna/fit/fit.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/echidna/fit/fit.py b/echidna/fit/fit.py
index 5a7839c..e664677 100644
--- a/echidna/fit/fit.py
+++ b/echidna/fit/fit.py
@@ -543,8 +543,9 @@ class Fit(object):
                         signal = self.load_pre_made(self._signal,
                                                     global_pars)
                     else:
+                        signal = self._signal
                         for parameter in global_pars:
-                            signal = parameter.apply_to(self._signal)
+                            signal = parameter.apply_to(signal)
                     signal._fit_config = fit_config
                     self._global_dict[background_name][cur_val] = signal
                 else:
-- 
2.43.0


From 600db80fe6fed58408fe4e0bcd7377b6c99eb6b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:16:48 +0000
Subject: [PATCH 38/87] fix: checking the roi no longer changes the caller's
 dictionary or fails on bad limits

---
 echidna/fit/fit.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/echidna/fit/fit.py b/echidna/fit/fit.py
index e664677..170a6c9 100644
--- a/echidna/fit/fit.py
+++ b/echidna/fit/fit.py
@@ -307,7 +307,7 @@ class Fit(object):
             if len(roi[dim]) != 2:
                 raise CompatibilityError("%s entry (%s) in roi must contain a"
                                          " low and high value in a tuple or"
-                                         " list" % (dim, self._roi[dim]))
+                                         " list" % (dim, roi[dim]))
             if roi[dim][0] > roi[dim][1]:  # Make sure low is first
                 roi[dim] = roi[dim][::-1]  # Reverses list/tuple
 
@@ -804,6 +804,8 @@ class Fit(object):
             The format of roi is
             e.g. {"energy": (2.4, 2.6), "radial3": (0., 0.2)}
         """
+        if isinstance(roi, dict):
+            roi = copy.copy(roi)  # check_roi may reorder the limits
         self.check_roi(roi)
         self._roi = roi
         self._logger.debug("Set _roi as %s" % str(roi))
-- 
2.43.0


From 509617da30af9a0cb91957d14d336c50c4e22028 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:17:57 +0000
Subject: [PATCH 39/87] fix: spectra that cannot be compared with the data bin
 by bin are refused

---
 echidna/fit/fit.py | 35 +++++++++++++++++++++++++++++++++++
 1 file changed, 35 insertions(+)

diff --git a/echidna/fit/fit.py b/echidna/fit/fit.py
index 170a6c9..a8b1764 100644
--- a/echidna/fit/fit.py
+++ b/echidna/fit/fit.py
@@ -205,11 +205,15 @@ class Fit(object):
                 raise CompatibilityError("fixed background roi pars have not "
                                          "been set.")
             self.check_spectra(self._fixed_background)
+            self.check_binning(self._fixed_background)
 
         if self._signal:
             if not self._signal_pars:
                 raise CompatibilityError("signal roi pars have not been set.")
             self.check_spectra(self._signal)
+            # With global parameters the signal is rebinned in the fit
+            self.check_binning(self._signal,
+                               not self._fit_config.get_global_pars())
 
         if self._floating_backgrounds:
             if not self._floating_pars:
@@ -220,9 +224,40 @@ class Fit(object):
                                          "pars as the number of floating "
                                          "backgrounds.")
             for background in self._floating_backgrounds:
+                self.check_binning(background, False)
                 if background.get_fit_config():
                     self.check_fit_config(background)
 
+    def check_binning(self, spectra, bins=True):
+        """ Checks that the roi of a spectrum can be compared with the data
+        bin by bin.
+
+        Args:
+          spectra (:class:`echidna.core.spectra.Spectra`): Spectra you want to
+            check.
+          bins (bool, optional): If set to True (default), the number of bins
+            is checked, not just the order of the dimensions.
+
+        Raises:
+          CompatibilityError: If the roi dimensions of the spectrum and the
+            data are not in the same order.
+          CompatibilityError: If the spectrum and the data have a different
+            number of bins in a roi dimension.
+        """
+        shapes = []
+        for config in (self._data.get_config(), spectra.get_config()):
+            shapes.append([(config.get_dim(par), config.get_par(par)._bins)
+                           for par in config.get_pars()
+                           if config.get_dim(par) in self._roi])
+        data, other = shapes
+        if [dim for dim, _ in data] != [dim for dim, _ in other]:
+            raise CompatibilityError("Dimensions of %s and data are in a "
+                                     "different order" % spectra.get_name())
+        if bins and data != other:
+            raise CompatibilityError("%s and data have a different number of "
+                                     "bins: %s, %s" % (spectra.get_name(),
+                                                       other, data))
+
     def check_fit_config(self, spectra):
         """ Checks that a spectra has a fit config.
 
-- 
2.43.0


From b7156902e437b52add321348ecdfa39ee7524b38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:01 +0000
Subject: [PATCH 40/87] fix: DBIsotope uses a loading of zero, and refuses an
 outer radius of zero, instead of taking the default

---
 echidna/calc/decay.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/echidna/calc/decay.py b/echidna/calc/decay.py
index 5a4b045..4814f49 100644
--- a/echidna/calc/decay.py
+++ b/echidna/calc/decay.py
@@ -62,20 +62,20 @@ class DBIsotope(object):
         self._abundance = abundance
         self._phase_space = phase_space
         self._matrix_element = matrix_element
-        if loading:
+        if loading is not None:
             if loading < 0. or loading > 1.:
                 raise ValueError("Loading ranges from 0 to 1")
             self._loading = loading
         else:
             # Default SNO+ Loading
             self._loading = const._loading
-        if outer_radius:
+        if outer_radius is not None:
             if outer_radius <= 0.:
                 raise ValueError("Outer radius must be positive and non-zero")
             self._outer_radius = outer_radius
         else:
             self._outer_radius = const._av_radius
-        if scint_density:
+        if scint_density is not None:
             self._scint_density = scint_density
         else:
             self._scint_density = const._scint_density
-- 
2.43.0


From cbd6b586837c24c4b51d8765e18ced61e421cbb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:17 +0000
Subject: [PATCH 41/87] fix: the numbers of evs and mc particles are compared,
 not the methods that return them

---
 echidna/core/dsextract.py | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/echidna/core/dsextract.py b/echidna/core/dsextract.py
index 83c01b4..0b13006 100644
--- a/echidna/core/dsextract.py
+++ b/echidna/core/dsextract.py
@@ -148,7 +148,7 @@ class EnergyExtractMC(Extractor):
             if mc.GetMCParticle(0).GetPosition().Mag() < self._fv_radius:
                 return True  # Passes fiducial volume cut
             return False  # Fails fiducial volume cut
-        if ds.GetEVCount == 0:
+        if ds.GetEVCount() == 0:
             return False  # Failed reconstruction
         # Reco cut on MC value requires 1 ev else which position to use?
         if ds.GetEVCount() != 1:
@@ -170,9 +170,9 @@ class EnergyExtractMC(Extractor):
           bool: Validity boolean
         '''
         if self._external:
-            if ds.GetEVCount == 0:
+            if ds.GetEVCount() == 0:
                 return False  # Failed reconstruction
-        if mc.GetMCParticleCount > 0:
+        if mc.GetMCParticleCount() > 0:
             if self._fv_radius:
                 return self.fv_cut_root(mc, ds)
             return True  # Passes particle count and no fid v cut
@@ -422,7 +422,7 @@ class EnergyExtractTruth(Extractor):
             if mc.GetMCParticle(0).GetPosition().Mag() < self._fv_radius:
                 return True  # Passes fiducial volume cut
             return False  # Fails fiducial volume cut
-        if ds.GetEVCount == 0:
+        if ds.GetEVCount() == 0:
             return False  # Failed reconstruction
         # Reco cut on MC value requires 1 ev else which position to use?
         if ds.GetEVCount() != 1:
@@ -444,9 +444,9 @@ class EnergyExtractTruth(Extractor):
           bool: Validity boolean
         '''
         if self._external:
-            if ds.GetEVCount == 0:
+            if ds.GetEVCount() == 0:
                 return False  # Failed reconstruction
-        if mc.GetMCParticleCount > 0:
+        if mc.GetMCParticleCount() > 0:
             if self._fv_radius:
                 return self.fv_cut_root(mc, ds)
             return True  # Passes particle count and no fid v cut
@@ -566,7 +566,7 @@ class RadialExtractMC(Extractor):
             if mc.GetMCParticle(0).GetPosition().Mag() < self._fv_radius:
                 return True  # Passes fiducial volume cut
             return False  # Fails fiducial volume cut
-        if ds.GetEVCount == 0:
+        if ds.GetEVCount() == 0:
             return False  # Failed reconstruction
         # Reco cut on MC value requires 1 ev else which position to use?
         if ds.GetEVCount() != 1:
@@ -587,7 +587,7 @@ class RadialExtractMC(Extractor):
         Returns:
           bool: Validity boolean
         '''
-        if mc.GetMCParticleCount > 0:
+        if mc.GetMCParticleCount() > 0:
             if self._fv_radius:
                 return self.fv_cut_root(mc, ds)
             return True  # Passes particle count and no fid v cut
@@ -853,7 +853,7 @@ class Radial3ExtractMC(Extractor):
             if mc.GetMCParticle(0).GetPosition().Mag() < self._fv_radius:
                 return True  # Passes fiducial volume cut
             return False  # Fails fiducial volume cut
-        if ds.GetEVCount == 0:
+        if ds.GetEVCount() == 0:
             return False  # Failed reconstruction
         # Reco cut on MC value requires 1 ev else which position to use?
         if ds.GetEVCount() != 1:
@@ -874,7 +874,7 @@ class Radial3ExtractMC(Extractor):
         Returns:
           bool: Validity boolean
         '''
-        if mc.GetMCParticleCount > 0:
+        if mc.GetMCParticleCount() > 0:
             if self._fv_radius:
                 return self.fv_cut_root(mc, ds)
             return True  # Passes particle count and no fid v cut
@@ -1143,7 +1143,7 @@ class ZRadial3ExtractMC(Extractor):
             if mc.GetMCParticle(0).GetPosition().Mag() < self._fv_radius:
                 return True  # Passes fiducial volume cut
             return False  # Fails fiducial volume cut
-        if ds.GetEVCount == 0:
+        if ds.GetEVCount() == 0:
             return False  # Failed reconstruction
         # Reco cut on MC value requires 1 ev else which position to use?
         if ds.GetEVCount() != 1:
@@ -1164,7 +1164,7 @@ class ZRadial3ExtractMC(Extractor):
         Returns:
           bool: Validity boolean
         '''
-        if mc.GetMCParticleCount > 0:
+        if mc.GetMCParticleCount() > 0:
             if self._fv_radius:
                 return self.fv_cut_root(mc, ds)
             return True  # Passes particle count and no fid v cut
-- 
2.43.0


From f71e19f7fce72adb49bc5c8e88fe9dfe577556e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:17 +0000
Subject: [PATCH 42/87] fix: events without a reconstructed position fail cuts
 on it, as for ntuples

---
 echidna/core/dsextract.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/echidna/core/dsextract.py b/echidna/core/dsextract.py
index 0b13006..8b3d978 100644
--- a/echidna/core/dsextract.py
+++ b/echidna/core/dsextract.py
@@ -154,6 +154,8 @@ class EnergyExtractMC(Extractor):
         if ds.GetEVCount() != 1:
             raise ValueError("Can only mix cuts for 1 mc = 1 ev")
         ev = ds.GetEV(0)
+        if not ev.DefaultFitVertexExists():
+            return False  # Failed reconstruction
         if ev.GetDefaultFitVertex().GetPosition().Mag() < \
                 self._fv_radius:
             return True  # Passes fiducial volume cut
@@ -428,6 +430,8 @@ class EnergyExtractTruth(Extractor):
         if ds.GetEVCount() != 1:
             raise ValueError("Can only mix cuts for 1 mc = 1 ev")
         ev = ds.GetEV(0)
+        if not ev.DefaultFitVertexExists():
+            return False  # Failed reconstruction
         if ev.GetDefaultFitVertex().GetPosition().Mag() < \
                 self._fv_radius:
             return True  # Passes fiducial volume cut
@@ -572,6 +576,8 @@ class RadialExtractMC(Extractor):
         if ds.GetEVCount() != 1:
             raise ValueError("Can only mix cuts for 1 mc = 1 ev")
         ev = ds.GetEV(0)
+        if not ev.DefaultFitVertexExists():
+            return False  # Failed reconstruction
         if ev.GetDefaultFitVertex().GetPosition().Mag() < \
                 self._fv_radius:
             return True  # Passes fiducial volume cut
@@ -859,6 +865,8 @@ class Radial3ExtractMC(Extractor):
         if ds.GetEVCount() != 1:
             raise ValueError("Can only mix cuts for 1 mc = 1 ev")
         ev = ds.GetEV(0)
+        if not ev.DefaultFitVertexExists():
+            return False  # Failed reconstruction
         if ev.GetDefaultFitVertex().GetPosition().Mag() < \
                 self._fv_radius:
             return True  # Passes fiducial volume cut
@@ -1149,6 +1157,8 @@ class ZRadial3ExtractMC(Extractor):
         if ds.GetEVCount() != 1:
             raise ValueError("Can only mix cuts for 1 mc = 1 ev")
         ev = ds.GetEV(0)
+        if not ev.DefaultFitVertexExists():
+            return False  # Failed reconstruction
         if ev.GetDefaultFitVertex().GetPosition().Mag() < \
                 self._fv_radius:
             return True  # Passes fiducial volume cut
-- 
2.43.0


From d7fea1ac7c3b4d48ef0ba391445129336ee5b49a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:17 +0000
Subject: [PATCH 43/87] fix: the radius of an ev is valid when its position is,
 for every radial dimension

---
 echidna/core/dsextract.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/echidna/core/dsextract.py b/echidna/core/dsextract.py
index 8b3d978..ea1ebe9 100644
--- a/echidna/core/dsextract.py
+++ b/echidna/core/dsextract.py
@@ -1031,8 +1031,8 @@ class Radial3ExtractReco(Extractor):
           bool: Validity boolean
         '''
         if ev.DefaultFitVertexExists() and \
-                ev.GetDefaultFitVertex().ContainsEnergy() \
-                and ev.GetDefaultFitVertex().ValidEnergy():
+                ev.GetDefaultFitVertex().ContainsPosition() \
+                and ev.GetDefaultFitVertex().ValidPosition():
             if self._fv_radius:
                 return self.fv_cut_root(ev, ds)
             return True  # Passes fit checks and no fid v cut
@@ -1324,8 +1324,8 @@ class ZRadial3ExtractReco(Extractor):
           bool: Validity boolean
         '''
         if ev.DefaultFitVertexExists() and \
-                ev.GetDefaultFitVertex().ContainsEnergy() \
-                and ev.GetDefaultFitVertex().ValidEnergy():
+                ev.GetDefaultFitVertex().ContainsPosition() \
+                and ev.GetDefaultFitVertex().ValidPosition():
             if self._fv_radius:
                 return self.fv_cut_root(ev, ds)
             return True  # Passes fit checks and no fid v cut
-- 
2.43.0


From 2b355b732757ed05a34823a43b6d1180d928e503 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:17 +0000
Subject: [PATCH 44/87] fix: the zradial3 extractors can be created, with or
 without external

---
 echidna/core/dsextract.py | 31 +++++++++++++++++++++++++++----
 1 file changed, 27 insertions(+), 4 deletions(-)

diff --git a/echidna/core/dsextract.py b/echidna/core/dsextract.py
index ea1ebe9..bc5b81f 100644
--- a/echidna/core/dsextract.py
+++ b/echidna/core/dsextract.py
@@ -1092,22 +1092,33 @@ class ZRadial3ExtractMC(Extractor):
         :math:``(z/\lvert z \rvert)(radius/outer\_radius)^3`. If None then
         the av_radius in :class:`echidna.calc.constants` is used in the
         calculation.
+      external (bool, optional): Set to True for external backgrounds.
+        Default is False.
 
     Attributes:
       _outer_radius (float): The fixed radius used in calculating
         :math:``(z/\lvert z \rvert)(radius/outer\_radius)^3`.
       _reco_pos (bool): If true then position cuts will be made on
       reconstructed position. If False then MC position is used for cuts.
+
+    Raises:
+      ValueError: If external is True. Cant have MC Positions info for
+        externals. These are original isotope positions
+        (outside active volume).
     '''
 
-    def __init__(self, fv_radius=None, outer_radius=None, reco_pos=False):
+    def __init__(self, fv_radius=None, outer_radius=None, reco_pos=False,
+                 external=False):
         '''Initialise the class
         '''
-        super(ZRadial3ExtractMC, self).__init__("zradial3_mc", fv_radius)
+        super(ZRadial3ExtractMC, self).__init__("zradial3_mc", fv_radius,
+                                                external)
         if outer_radius:
             self._outer_radius = outer_radius
         else:
             self._outer_radius = const._av_radius
+        if external:
+            raise ValueError("External is True. No mc pos info for externals")
         self._reco_pos = reco_pos
 
     def fv_cut_ntuple(self, entry):
@@ -1250,22 +1261,34 @@ class ZRadial3ExtractReco(Extractor):
       mc_pos (bool, optional): If true then  MC position is used for cuts.
         If False (default) then position cuts will be made on reconstructed
         position.
+      external (bool, optional): Set to True for external backgrounds.
+        Default is False.
 
     Attributes:
       _outer_radius (float: The fixed radius used in calculating
         :math:``(z/\lvert z \rvert)(radius/outer\_radius)^3`.
       _mc_pos (bool): If true then MC position is used for cuts.
         If False then position cuts will be made on reconstructed position.
+
+    Raises:
+      ValueError: If external and mc_pos is True. Cant have MC Positions info
+        for externals. These are original isotope positions
+        (outside active volume).
     '''
 
-    def __init__(self, fv_radius=None, outer_radius=None, mc_pos=False):
+    def __init__(self, fv_radius=None, outer_radius=None, mc_pos=False,
+                 external=False):
         '''Initialise the class
         '''
-        super(ZRadial3ExtractReco, self).__init__("zradial3_reco", fv_radius)
+        super(ZRadial3ExtractReco, self).__init__("zradial3_reco", fv_radius,
+                                                  external)
         if outer_radius:
             self._outer_radius = outer_radius
         else:
             self._outer_radius = const._av_radius
+        if external and mc_pos:
+            raise ValueError("External and mc_pos are True. Can't have mc_pos "
+                             "for externals.")
         self._mc_pos = mc_pos
 
     def fv_cut_ntuple(self, entry):
-- 
2.43.0


From 16a8086f117ba2801e14ac10cd02fd6748583ca0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:17 +0000
Subject: [PATCH 45/87] fix: reconstructed zradial3 is read from the vertex and
 signed by z

---
 echidna/core/dsextract.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/echidna/core/dsextract.py b/echidna/core/dsextract.py
index bc5b81f..16e98e5 100644
--- a/echidna/core/dsextract.py
+++ b/echidna/core/dsextract.py
@@ -1365,9 +1365,9 @@ class ZRadial3ExtractReco(Extractor):
           float: Reconstructed
             :math:``(z/\lvert z \rvert)(radius/outer\_radius)^3`
         '''
-        if ev.GetDefaultFitVertec().GetPositon()[2] < 0.:
-            return 1. * (ev.GetDefaultFitVertex().GetPosition().Mag() /
-                         self._outer_radius) ** 3
+        if ev.GetDefaultFitVertex().GetPosition()[2] < 0.:
+            return -1. * (ev.GetDefaultFitVertex().GetPosition().Mag() /
+                          self._outer_radius) ** 3
         else:
             return (ev.GetDefaultFitVertex().GetPosition().Mag() /
                     self._outer_radius) ** 3
-- 
2.43.0


From 32831ee188fb44fdc54dca31a2af70dc79f11f68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:17 +0000
Subject: [PATCH 46/87] fix: the bipo cut on ntuples no longer drops the last
 event

---
 echidna/core/fill_spectrum.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/echidna/core/fill_spectrum.py b/echidna/core/fill_spectrum.py
index ca3860a..43c3fae 100644
--- a/echidna/core/fill_spectrum.py
+++ b/echidna/core/fill_spectrum.py
@@ -51,6 +51,12 @@ def _bipo_ntuple(spectrum, chain, extractors):
             else:
                 check_next = False
                 break
+    if check_next:  # Nothing follows the last event
+        try:
+            spectrum.fill(**fill_kwargs)
+            spectrum._raw_events += 1
+        except ValueError:
+            pass
     return spectrum
 
 
-- 
2.43.0


From d6391f6e31bb02ac45f8c874d54d67966dc32332 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:06 +0000
Subject: [PATCH 47/87] fix: fit results without spectral fit parameters can be
 loaded

---
 echidna/output/store.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/echidna/output/store.py b/echidna/output/store.py
index 2d6c553..88a12b0 100644
--- a/echidna/output/store.py
+++ b/echidna/output/store.py
@@ -398,12 +398,13 @@ def load_fit_results(file_path):
                        object_pairs_hook=OrderedDict),
             name=spectra_config_name)
         fit_config_name = group.attrs["fit_config_name"]
-        fit_config = GlobalFitConfig.load(
-            json.loads(group.attrs["fit_config"],
-                       object_pairs_hook=OrderedDict)[0],
-            spectral_config=json.loads(group.attrs["fit_config"],
-                                       object_pairs_hook=OrderedDict)[1],
-            name=fit_config_name)
+        global_config, spectral_config = json.loads(
+            group.attrs["fit_config"], object_pairs_hook=OrderedDict)
+        if not spectral_config["spectral_fit_parameters"]:
+            spectral_config = None
+        fit_config = GlobalFitConfig.load(global_config,
+                                          spectral_config=spectral_config,
+                                          name=fit_config_name)
 
         stats = group["stats"].value
         if stats.shape == fit_config.get_shape():
-- 
2.43.0


From e5a0d250c7525233cdedaa2b40d1d914c3a9e403 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:06 +0000
Subject: [PATCH 48/87] fix: loaded fit and limit results keep the order of the
 fit parameters, which the axes of their arrays follow

---
 echidna/output/store.py | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/echidna/output/store.py b/echidna/output/store.py
index 88a12b0..3fc1ac8 100644
--- a/echidna/output/store.py
+++ b/echidna/output/store.py
@@ -152,6 +152,25 @@ def dump_ndarray(file_path, ndarray_object):
     _logger.info("Saved %s to %s" % (str(ndarray_object), file_path))
 
 
+def _restore_order(group, fit_config):
+    """ Puts the parameters of a loaded fit config back in the order they
+    had when it was saved, which is the order of the axes of the arrays
+    saved with it. The dictionaries the config is saved as are grouped by
+    type and dimension, so do not contain it.
+
+    Args:
+      group (:class:`h5py.Group`): Group the fit config was saved to.
+      fit_config (:class:`echidna.core.config.GlobalFitConfig`): The
+        loaded fit config.
+    """
+    if "fit_config_pars" not in group.attrs:  # Saved by older version
+        return
+    parameters = fit_config._parameters
+    fit_config._parameters = OrderedDict(
+        (par, parameters[par]) for par in
+        json.loads(group.attrs["fit_config_pars"]))
+
+
 def dump_fit_results(file_path, fit_results, append=False):
     """ Dump the fit results to the specified file_path.
 
@@ -176,6 +195,8 @@ def dump_fit_results(file_path, fit_results, append=False):
         group.attrs["fit_config"] = json.dumps(
             fit_results._fit_config.dump())
         group.attrs["fit_config_name"] = fit_results._fit_config.get_name()
+        group.attrs["fit_config_pars"] = json.dumps(
+            list(fit_results._fit_config.get_pars()))
 
         group.create_dataset("penalty_terms", data=fit_results._penalty_terms,
                              compression="gzip")
@@ -211,6 +232,8 @@ def dump_limit_results(file_path, limit_results, append=False):
         group.attrs["fit_config"] = json.dumps(
             limit_results._fit_config.dump())
         group.attrs["fit_config_name"] = limit_results._fit_config.get_name()
+        group.attrs["fit_config_pars"] = json.dumps(
+            list(limit_results._fit_config.get_pars()))
         group.attrs["limit_config"] = json.dumps(
             limit_results._limit_config.dump())
         group.attrs["limit_config_name"] = \
@@ -405,6 +428,7 @@ def load_fit_results(file_path):
         fit_config = GlobalFitConfig.load(global_config,
                                           spectral_config=spectral_config,
                                           name=fit_config_name)
+        _restore_order(group, fit_config)
 
         stats = group["stats"].value
         if stats.shape == fit_config.get_shape():
@@ -456,6 +480,7 @@ def load_limit_results(file_path):
         else:
             fit_config = GlobalFitConfig.load(global_config,
                                               name=fit_config_name)
+        _restore_order(group, fit_config)
         limit_config = json.loads(group.attrs["limit_config"],
                                   object_pairs_hook=OrderedDict)
         limit_config_name = group.attrs["limit_config_name"]
-- 
2.43.0


From 62bfd2973207c573e396af480f152fb6d3ff92f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:35 +0000
Subject: [PATCH 49/87] fix: the fit results loaded for each signal scale have
 the penalty terms of that scale

---
 echidna/output/store.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/echidna/output/store.py b/echidna/output/store.py
index 3fc1ac8..f54dc81 100644
--- a/echidna/output/store.py
+++ b/echidna/output/store.py
@@ -514,6 +514,8 @@ def load_limit_results(file_path):
                     for par in fit_results._fit_config.get_pars():
                         p = fit_results._fit_config.get_par(par)
                         p.set_best_fit(limit_results.get_best_fit(i, par))
+                        p.set_penalty_term(
+                            limit_results.get_penalty_term(i, par))
                     limit_results._fit_results[i] = copy.deepcopy(fit_results)
     _logger.info("Loaded LimitResults %s" % limit_results.get_name())
     return limit_results
-- 
2.43.0


From 341f3846bcc087b9672422e426be8a81713c24c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:35 +0000
Subject: [PATCH 50/87] fix: fit results with per-bin statistics are loaded as
 such from limit results

---
 echidna/output/store.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/echidna/output/store.py b/echidna/output/store.py
index f54dc81..9b50317 100644
--- a/echidna/output/store.py
+++ b/echidna/output/store.py
@@ -504,10 +504,12 @@ def load_limit_results(file_path):
                 sub_group_name = group_name+"/"+str(i)
                 sub_group = file_[sub_group_name]
                 if sub_group.attrs["exists"] == 1.:
-                    fit_results = GridSearch(fit_config=fit_config,
-                                             spectra_config=spectra_config,
-                                             name=fit_config_name)
-                    fit_results._stats = sub_group["stats"].value
+                    stats = sub_group["stats"].value
+                    fit_results = GridSearch(
+                        fit_config=fit_config, spectra_config=spectra_config,
+                        name=fit_config_name,
+                        per_bin=stats.shape != fit_config.get_shape())
+                    fit_results._stats = stats
                     fit_results._resets = sub_group.attrs["resets"]
                     fit_results._penalty_terms = sub_group[
                         "penalty_terms"].value
-- 
2.43.0


From e7715cc5f6083626d65e91268e724af9440598d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:06 +0000
Subject: [PATCH 51/87] fix: loading the fit results of each scale does not
 change the fit config of the limit results

---
 echidna/output/store.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/echidna/output/store.py b/echidna/output/store.py
index 9b50317..057e34e 100644
--- a/echidna/output/store.py
+++ b/echidna/output/store.py
@@ -506,8 +506,8 @@ def load_limit_results(file_path):
                 if sub_group.attrs["exists"] == 1.:
                     stats = sub_group["stats"].value
                     fit_results = GridSearch(
-                        fit_config=fit_config, spectra_config=spectra_config,
-                        name=fit_config_name,
+                        fit_config=copy.deepcopy(fit_config),
+                        spectra_config=spectra_config, name=fit_config_name,
                         per_bin=stats.shape != fit_config.get_shape())
                     fit_results._stats = stats
                     fit_results._resets = sub_group.attrs["resets"]
-- 
2.43.0


From 494a5ceebcd2471a42b583e38a964a7a613d214e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:06 +0000
Subject: [PATCH 52/87] fix: get_array_errors returns the shape of its input

---
 echidna/utilities.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/echidna/utilities.py b/echidna/utilities.py
index f9235c3..42b973e 100644
--- a/echidna/utilities.py
+++ b/echidna/utilities.py
@@ -66,8 +66,7 @@ def get_array_errors(array, lin_err=0.01, frac_err=None,
             error = numpy.power(10., error)
         errors[index] = error
     errors = errors - array
-    errors.reshape(shape)
-    return errors
+    return errors.reshape(shape)
 
 
 class DispatchingFormatter:
-- 
2.43.0


From ef89cc912efc4eac3965e7c2d3ea552c479cd0cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:26 +0000
Subject: [PATCH 53/87] fix: FitParameter.get_bin returned an earlier value
 within a relative 1e-5 instead of the closest

---
 echidna/core/parameter.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/echidna/core/parameter.py b/echidna/core/parameter.py
index 4c3dadc..eb71e14 100644
--- a/echidna/core/parameter.py
+++ b/echidna/core/parameter.py
@@ -311,11 +311,12 @@ class FitParameter(Parameter):
         Returns:
           int: Bin index.
         """
-        try:
-            return numpy.where(numpy.isclose(self.get_values(), value))[0][0]
-        except:
-            return int((value - self._low) / (self._high - self._low) *
-                       self._bins)
+        values = self.get_values()
+        index = int(numpy.argmin(numpy.fabs(values - value)))
+        if numpy.isclose(values[index], value):
+            return index
+        return int((value - self._low) / (self._high - self._low) *
+                   self._bins)
 
     def get_bin_boundaries(self):
         """ ***PENDING DEPRECATION***
-- 
2.43.0


From 0397a5e92d85d6d04096861b54519540f1f8cf21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:26 +0000
Subject: [PATCH 54/87] fix: a prior of zero was always reported as missing
 from the values

---
 echidna/core/parameter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/echidna/core/parameter.py b/echidna/core/parameter.py
index eb71e14..4359a40 100644
--- a/echidna/core/parameter.py
+++ b/echidna/core/parameter.py
@@ -271,8 +271,8 @@ class FitParameter(Parameter):
             logging.getLogger("extra").debug("\n\n%s\n" % str(bad_values))
 
         # Check prior contained in values
-        if not numpy.any(numpy.around(values / self._prior, 12) ==
-                         numpy.around(1., 12)):
+        if not numpy.any(numpy.isclose(values, self._prior,
+                                       rtol=1e-12, atol=1e-12)):
             warnings.warn("Prior not in values array "
                           "for parameter %s" % self._name)
             logging.getLogger("extra").warning(
-- 
2.43.0


From 90957bc751b4936646bec7bcc2dca3f76a67e114 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:26 +0000
Subject: [PATCH 55/87] fix: spectra with global parameters applied were cached
 by background name, so other spectra of that name were replaced by them

---
 echidna/fit/fit.py | 25 +++++++++++--------------
 1 file changed, 11 insertions(+), 14 deletions(-)

diff --git a/echidna/fit/fit.py b/echidna/fit/fit.py
index a8b1764..cb6cc98 100644
--- a/echidna/fit/fit.py
+++ b/echidna/fit/fit.py
@@ -81,6 +81,7 @@ class Fit(object):
                  use_pre_made=False, pre_made_base_dir=None, single_bin=False):
         self._logger = logging.getLogger("Fit")
         self._checked = False
+        self._global_dict = {}
         self.set_roi(roi)
 
         self.set_test_statistic(test_statistic)
@@ -116,8 +117,6 @@ class Fit(object):
                                  "fixed background or at least one floating "
                                  "is required to run the fit.")
 
-        self._global_dict = {}
-
         # Now all floating backgrounds are loaded, check fit par values
         for par in self.get_fit_config().get_spectra_pars():
             par.check_values()  # raises an error if prior is not in values
@@ -529,10 +528,9 @@ class Fit(object):
                                            self._floating_pars):
             # Apply global parameters first
             if global_pars:
-                background_name = spectrum.get_background_name()
-                if background_name not in self._global_dict:
-                    self._global_dict[background_name] = {}
-                if cur_val not in self._global_dict[background_name]:
+                # Cached by spectrum, as names need not be unique
+                cache = self._global_dict.setdefault(spectrum, {})
+                if cur_val not in cache:
                     fit_config = spectrum._fit_config
                     if self._use_pre_made:  # Load pre-made spectrum from file
                         spectrum = self.load_pre_made(spectrum, global_pars)
@@ -540,9 +538,9 @@ class Fit(object):
                         for parameter in global_pars:
                             spectrum = parameter.apply_to(spectrum)
                     spectrum._fit_config = fit_config
-                    self._global_dict[background_name][cur_val] = spectrum
+                    cache[cur_val] = spectrum
                 else:
-                    spectrum = self._global_dict[background_name][cur_val]
+                    spectrum = cache[cur_val]
 
             # Work on a copy, so that neither the caller's nor the cached
             # spectrum is changed (scaling to zero cannot be undone)
@@ -569,10 +567,8 @@ class Fit(object):
         if self._signal:
             if global_pars:
                 num_decays = self._signal._num_decays
-                background_name = self._signal.get_background_name()
-                if background_name not in self._global_dict:
-                    self._global_dict[background_name] = {}
-                if cur_val not in self._global_dict[background_name]:
+                cache = self._global_dict.setdefault(self._signal, {})
+                if cur_val not in cache:
                     fit_config = self._signal._fit_config
                     if self._use_pre_made:  # Load pre-made spectrum from file
                         signal = self.load_pre_made(self._signal,
@@ -582,9 +578,9 @@ class Fit(object):
                         for parameter in global_pars:
                             signal = parameter.apply_to(signal)
                     signal._fit_config = fit_config
-                    self._global_dict[background_name][cur_val] = signal
+                    cache[cur_val] = signal
                 else:
-                    signal = self._global_dict[background_name][cur_val]
+                    signal = cache[cur_val]
                 self.shrink_to_data(signal)
                 signal.rebin(self._data._data.shape)
                 signal.scale(num_decays)
@@ -778,6 +774,7 @@ class Fit(object):
             floating_pars.append(self.get_roi_pars(background))
         self._floating_backgrounds = floating_backgrounds
         self._floating_pars = floating_pars
+        self._global_dict = {}
 
     def set_minimiser(self, minimiser=None):
         """ Sets the minimiser to use in fitting.
-- 
2.43.0


From 8f5b2586b58a6a8cfb1ef882c6df0c3c4747890a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:26 +0000
Subject: [PATCH 56/87] fix: the cached signal stayed in the binning of earlier
 data

---
 echidna/fit/fit.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/echidna/fit/fit.py b/echidna/fit/fit.py
index cb6cc98..9556059 100644
--- a/echidna/fit/fit.py
+++ b/echidna/fit/fit.py
@@ -581,6 +581,7 @@ class Fit(object):
                     cache[cur_val] = signal
                 else:
                     signal = cache[cur_val]
+                signal = copy.copy(signal)  # Leave the cached one unchanged
                 self.shrink_to_data(signal)
                 signal.rebin(self._data._data.shape)
                 signal.scale(num_decays)
-- 
2.43.0


From 00473fe0cfa28d2178e4bfa203a470b8800e51ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:00 +0000
Subject: [PATCH 57/87] fix: the per-bin plot of two dimensions was transposed
 when x comes first

---
 echidna/output/plot_root.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/echidna/output/plot_root.py b/echidna/output/plot_root.py
index 0969906..1a8b2ca 100644
--- a/echidna/output/plot_root.py
+++ b/echidna/output/plot_root.py
@@ -471,7 +471,7 @@ def plot_per_bin(fit_results, min_chisq=True, graphical=True,
         x_par = fit_results._spectra_config.get_par(x_dim)
         y_par = fit_results._spectra_config.get_par(y_dim)
         idx_x = fit_results._spectra_config.get_index(x_dim)
-        idx_y = fit_results._spectra_config.get_index(x_dim)
+        idx_y = fit_results._spectra_config.get_index(y_dim)
         h = ROOT.TH2D("chi_sq" + strings.id_generator(),
                       ";" + x_dim + ";" + y_dim + ";#chi^{2}", x_par._bins,
                       x_par._low, x_par._high, y_par._bins, y_par._low,
-- 
2.43.0


From 3fb59cb3cb83f2bc345ed4d95bff8841bfd5ecd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:00 +0000
Subject: [PATCH 58/87] fix: the ROOT surface plot was transposed when the
 second dimension comes first

---
 echidna/output/plot_root.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/echidna/output/plot_root.py b/echidna/output/plot_root.py
index 1a8b2ca..7911896 100644
--- a/echidna/output/plot_root.py
+++ b/echidna/output/plot_root.py
@@ -65,6 +65,9 @@ def plot_surface(spectra, dimension1, dimension2, graphical=True, h_name=None):
                      spectra.get_config().get_par(dimension2)._low,
                      spectra.get_config().get_par(dimension2)._high)
     data = spectra.surface(dimension1, dimension2)
+    if (spectra.get_config().get_index(dimension1) >
+            spectra.get_config().get_index(dimension2)):
+        data = data.transpose()  # surface returns the order of the config
     for index_x, data_x in enumerate(data):
         for index_y, datum in enumerate(data_x):
             plot.SetBinContent(index_x + 1, index_y + 1, datum)
-- 
2.43.0


From 6f927a15290dcee3b94dd78da183420f01a3edce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:00 +0000
Subject: [PATCH 59/87] fix: plotting the pulls changed the best fits of the
 limit results

---
 echidna/output/plot_root.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/echidna/output/plot_root.py b/echidna/output/plot_root.py
index 7911896..0c157ae 100644
--- a/echidna/output/plot_root.py
+++ b/echidna/output/plot_root.py
@@ -428,8 +428,7 @@ def plot_sigma_best_fit_vs_scale(limit_results, par, graphical=True):
     best_fits = limit_results.get_best_fits(par)
     prior = limit_results._fit_config.get_par(par).get_prior()
     sigma = limit_results._fit_config.get_par(par).get_sigma()
-    best_fits -= prior
-    best_fits /= sigma
+    best_fits = (best_fits - prior) / sigma
     scales = limit_results.get_scales()
     g = ROOT.TGraph(len(scales), scales, best_fits)
     g.SetMarkerStyle(3)
-- 
2.43.0


From ae78e37dffde90955340b5c833e4547e86c5f275 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:00 +0000
Subject: [PATCH 60/87] fix: the type of a spectrum is compared by value in the
 spectral plot

---
 echidna/output/plot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/echidna/output/plot.py b/echidna/output/plot.py
index fe1f34e..fa22b8f 100644
--- a/echidna/output/plot.py
+++ b/echidna/output/plot.py
@@ -180,7 +180,7 @@ def spectral_plot(spectra_dict, dimension, fig_num=1, show_plot=True,
             color = None
         axis.hist(x, bins=bins, weights=data, histtype="step",
                   label=label, color=color, log=log_y)
-        if value.get("type") is "background":
+        if value.get("type") == "background":
             summed_background = summed_background + spectra.project(dimension)
         summed_total = summed_total + spectra.project(dimension)
     axis.hist(x, bins=bins, weights=summed_background,
-- 
2.43.0


From c7b2a1413bafbed196584f089533165049d334b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:32 +0000
Subject: [PATCH 61/87] fix: dump_scaled and dump_shrink wrote to / for a file
 of the working directory

---
 echidna/scripts/dump_scaled.py | 4 +++-
 echidna/scripts/dump_shrink.py | 2 +-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/echidna/scripts/dump_scaled.py b/echidna/scripts/dump_scaled.py
index 8528b1b..0a5a505 100644
--- a/echidna/scripts/dump_scaled.py
+++ b/echidna/scripts/dump_scaled.py
@@ -55,7 +55,9 @@ def main(args):
         else:
             raise ValueError("%s does not exist." % args.dest)
     else:
-        directory = os.path.dirname(args.file) + "/"
+        directory = os.path.dirname(args.file)
+        if directory:
+            directory += "/"
     filename = os.path.splitext(os.path.basename(args.file))[0]
     scaler = scale.Scale()
     scaler.set_scale_factor(args.scale)
diff --git a/echidna/scripts/dump_shrink.py b/echidna/scripts/dump_shrink.py
index a111746..9cff55e 100644
--- a/echidna/scripts/dump_shrink.py
+++ b/echidna/scripts/dump_shrink.py
@@ -75,7 +75,7 @@ def main(args):
     if not f_out:
         directory = os.path.dirname(args.input)
         filename = os.path.splitext(os.path.basename(args.input))[0]
-        f_out = directory + "/" + filename + "_shrunk.hdf5"
+        f_out = os.path.join(directory, filename + "_shrunk.hdf5")
     store.dump(f_out, spectrum)
     _logger.info("Shrunk "+str(args.input)+", saved to "+str(f_out))
 
-- 
2.43.0


From 7e2499b36d921cc15b1e821e625be6081b762d04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:33 +0000
Subject: [PATCH 62/87] fix: dump_shifted accepts a shift of zero

---
 echidna/scripts/dump_shifted.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/echidna/scripts/dump_shifted.py b/echidna/scripts/dump_shifted.py
index 1cf1e45..43882eb 100644
--- a/echidna/scripts/dump_shifted.py
+++ b/echidna/scripts/dump_shifted.py
@@ -31,7 +31,7 @@ if __name__ == "__main__":
     if not args.file:
         parser.print_help()
         raise IOError("No file given in command line to shift")
-    if not args.shift:
+    if args.shift is None:
         parser.print_help()
         raise ValueError("No shift value given")
     if not args.dimension:
-- 
2.43.0


From ff0b0949084760288dfaa69f3b0e5e30b8ddd448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:33 +0000
Subject: [PATCH 63/87] fix: the scripts name their output after files without
 an extension too

---
 echidna/scripts/dump_shifted.py | 4 +++-
 echidna/scripts/dump_smeared.py | 4 +++-
 echidna/scripts/rebin.py        | 4 +++-
 3 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/echidna/scripts/dump_shifted.py b/echidna/scripts/dump_shifted.py
index 43882eb..a879aac 100644
--- a/echidna/scripts/dump_shifted.py
+++ b/echidna/scripts/dump_shifted.py
@@ -17,6 +17,8 @@ Examples:
 import echidna.output.store as store
 import echidna.core.shift as shift
 
+import os
+
 if __name__ == "__main__":
     import argparse
     parser = argparse.ArgumentParser()
@@ -40,7 +42,7 @@ if __name__ == "__main__":
 
     directory = args.file[:args.file.rfind("/")+1]  # strip filename
     # strip directory and extension
-    filename = args.file[args.file.rfind("/")+1:args.file.rfind(".")]
+    filename = os.path.splitext(os.path.basename(args.file))[0]
     shifter = shift.Shift()
     shifter.set_shift(args.shift)
     spectrum = store.load(args.file)
diff --git a/echidna/scripts/dump_smeared.py b/echidna/scripts/dump_smeared.py
index de3353f..eca7b98 100644
--- a/echidna/scripts/dump_smeared.py
+++ b/echidna/scripts/dump_smeared.py
@@ -23,6 +23,8 @@ Examples:
 import echidna.output.store as store
 import echidna.core.smear as smear
 
+import os
+
 if __name__ == "__main__":
     import argparse
     parser = argparse.ArgumentParser()
@@ -38,7 +40,7 @@ if __name__ == "__main__":
 
     directory = args.path[:args.path.rfind("/")+1]  # strip filename
     # strip directory and extension
-    filename = args.path[args.path.rfind("/")+1:args.path.rfind(".")]
+    filename = os.path.splitext(os.path.basename(args.path))[0]
 
     if args.energy_resolution:
         energy_smear = smear.EnergySmearRes()
diff --git a/echidna/scripts/rebin.py b/echidna/scripts/rebin.py
index 91743e6..d9c8429 100644
--- a/echidna/scripts/rebin.py
+++ b/echidna/scripts/rebin.py
@@ -21,6 +21,8 @@ Examples:
 from echidna.output import store
 from echidna.core import spectra
 
+import os
+
 if __name__ == "__main__":
     import argparse
     parser = argparse.ArgumentParser()
@@ -33,7 +35,7 @@ if __name__ == "__main__":
     args = parser.parse_args()
     directory = args.input[:args.input.rfind("/")+1]  # strip filename
     # strip directory and extension
-    filename = args.input[args.input.rfind("/")+1:args.input.rfind(".")]
+    filename = os.path.splitext(os.path.basename(args.input))[0]
     spectrum = store.load(args.input)
     new_bins = args.bins
     print "Data shape pre bin", spectrum._data.shape
-- 
2.43.0


From 8561353e8bcfd663bcb6ceeca7c18bb3ffbf37ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:33 +0000
Subject: [PATCH 64/87] fix: an energy resolution of zero is refused, not
 replaced by a light yield

---
 echidna/scripts/dump_smeared.py        | 2 +-
 echidna/scripts/dump_smeared_energy.py | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/echidna/scripts/dump_smeared.py b/echidna/scripts/dump_smeared.py
index eca7b98..d775cef 100644
--- a/echidna/scripts/dump_smeared.py
+++ b/echidna/scripts/dump_smeared.py
@@ -42,7 +42,7 @@ if __name__ == "__main__":
     # strip directory and extension
     filename = os.path.splitext(os.path.basename(args.path))[0]
 
-    if args.energy_resolution:
+    if args.energy_resolution is not None:
         energy_smear = smear.EnergySmearRes()
         energy_smear.set_resolution(args.energy_resolution)
     else:  # use light yield
diff --git a/echidna/scripts/dump_smeared_energy.py b/echidna/scripts/dump_smeared_energy.py
index 4978c45..de8596f 100644
--- a/echidna/scripts/dump_smeared_energy.py
+++ b/echidna/scripts/dump_smeared_energy.py
@@ -55,7 +55,7 @@ def main(args):
     # strip directory and extension
     filename = os.path.splitext(os.path.basename(args.path))[0]
 
-    if args.energy_resolution:
+    if args.energy_resolution is not None:
         if args.gaus:
             energy_smear = smear.EnergySmearRes(poisson=False)
         else:
@@ -84,7 +84,7 @@ def main(args):
     else:  # Not a valid smear method
         parser.error(args.smear_method + " is not a valid smear method")
 
-    if args.energy_resolution:
+    if args.energy_resolution is not None:
         str_rs = str(args.energy_resolution)
         filename = directory + filename + "_" + str_rs + "rs.hdf5"
     else:
-- 
2.43.0


From 6514f61f05a2b947c13db6b308321fd0207fa6c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:55 +0000
Subject: [PATCH 65/87] fix: spectra are made of every file of a list

---
 echidna/scripts/dump_spectra_ntuple.py | 9 +++++----
 echidna/scripts/dump_spectra_root.py   | 5 +++--
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/echidna/scripts/dump_spectra_ntuple.py b/echidna/scripts/dump_spectra_ntuple.py
index eabc8c6..836e17e 100644
--- a/echidna/scripts/dump_spectra_ntuple.py
+++ b/echidna/scripts/dump_spectra_ntuple.py
@@ -88,8 +88,9 @@ def read_tab_delim_file(fname):
     with open(fname, 'r') as f:
         # next(f) # skip headings
         reader = csv.reader(f, delimiter='\t')
-        for path in reader:
-            file_paths.append(path)
+        for row in reader:
+            if row:
+                file_paths.append(row[0])
     return file_paths
 
 
@@ -116,8 +117,8 @@ if __name__ == "__main__":
     args = parser.parse_args()
 
     if args.read_text_file:  # If passed text file: read, format and dump
-        path_list, half_life_list = read_tab_delim_file(args.read_text_file)
-        for fname, half_life in zip(path_list, half_life_list):
+        path_list = read_tab_delim_file(args.read_text_file)
+        for fname in path_list:
             spectrum_name = fname[fname.rfind('/', 0, -1)+1:]
             read_and_dump_ntuple(fname, args.config, spectrum_name,
                                  args.save_path, args.bipo, args.fv_radius,
diff --git a/echidna/scripts/dump_spectra_root.py b/echidna/scripts/dump_spectra_root.py
index df93f5e..2dceffa 100644
--- a/echidna/scripts/dump_spectra_root.py
+++ b/echidna/scripts/dump_spectra_root.py
@@ -83,8 +83,9 @@ def read_tab_delim_file(fname):
     with open(fname, 'r') as f:
         # next(f) # skip headings
         reader = csv.reader(f, delimiter='\t')
-        for path in reader:
-            file_paths.append(path)
+        for row in reader:
+            if row:
+                file_paths.append(row[0])
     return file_paths
 
 
-- 
2.43.0


From c4c7719852a46b4fe0a52f18091d0c1f5452355d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:55 +0000
Subject: [PATCH 66/87] fix: dump_spectra_root plots every dimension

---
 echidna/scripts/dump_spectra_root.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/echidna/scripts/dump_spectra_root.py b/echidna/scripts/dump_spectra_root.py
index 2dceffa..cd0f069 100644
--- a/echidna/scripts/dump_spectra_root.py
+++ b/echidna/scripts/dump_spectra_root.py
@@ -66,7 +66,7 @@ def plot_spectrum(spec, config):
         be plotted
       config (:class:`SpectraConfig`): configuration object
     """
-    for v in config.getpars():
+    for v in config.get_pars():
         plot.plot_projection(spec, v)
 
 
-- 
2.43.0


From 6d21ffeab15b8ebdf059ee97bf9a8ca18e10dcdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:55 +0000
Subject: [PATCH 67/87] fix: the spectra made by scripts have a background
 name, without which they cannot be stored

---
 echidna/scripts/dump_spectra_root.py     | 2 ++
 echidna/scripts/multi_ntuple_spectrum.py | 1 +
 2 files changed, 3 insertions(+)

diff --git a/echidna/scripts/dump_spectra_root.py b/echidna/scripts/dump_spectra_root.py
index cd0f069..be5e8ed 100644
--- a/echidna/scripts/dump_spectra_root.py
+++ b/echidna/scripts/dump_spectra_root.py
@@ -52,6 +52,8 @@ def read_and_dump_root(fname, config_path, spectrum_name, save_path, bipo,
             fname, spectrum_name="%s" % (spectrum_name), config=config,
             bipo=bipo, fv_radius=fv_radius)
 
+    spectrum.set_background_name(spectrum_name)
+
     # Plot
     plot_spectrum(spectrum, config)
     # Dump to file
diff --git a/echidna/scripts/multi_ntuple_spectrum.py b/echidna/scripts/multi_ntuple_spectrum.py
index 2c9366b..6022ef1 100644
--- a/echidna/scripts/multi_ntuple_spectrum.py
+++ b/echidna/scripts/multi_ntuple_spectrum.py
@@ -72,6 +72,7 @@ def create_combined_ntuple_spectrum(data_path, config_path, bkgnd_name,
             else:
                 spec = fill_spectrum.fill_from_ntuple(
                     file_path, spectrum=spec, bipo=bipo, fv_radius=fv_radius)
+    spec.set_background_name(bkgnd_name)
     # Plot
     plot_spectrum(spec, config)
     # Dump to file
-- 
2.43.0


From 3151033cf8347e0646c33e0149153119a47a7c57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:55 +0000
Subject: [PATCH 68/87] fix: directories may be given without a trailing slash

---
 echidna/scripts/multi_ntuple_spectrum.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/echidna/scripts/multi_ntuple_spectrum.py b/echidna/scripts/multi_ntuple_spectrum.py
index 6022ef1..d097a97 100644
--- a/echidna/scripts/multi_ntuple_spectrum.py
+++ b/echidna/scripts/multi_ntuple_spectrum.py
@@ -76,7 +76,7 @@ def create_combined_ntuple_spectrum(data_path, config_path, bkgnd_name,
     # Plot
     plot_spectrum(spec, config)
     # Dump to file
-    store.dump("%s%s.hdf5" % (save_path, bkgnd_name), spec)
+    store.dump(os.path.join(save_path, "%s.hdf5" % bkgnd_name), spec)
 
 
 def plot_spectrum(spec, config):
@@ -122,7 +122,7 @@ if __name__ == "__main__":
     if args.bkgnd_name:
         bkgnd_name = args.bkgnd_name
     else:
-        bkgnd_name = data_path[data_path.rfind('/', 0, -2)+1:-1]
+        bkgnd_name = os.path.basename(os.path.normpath(data_path))
 
     ##########################################################################
     # Set path to folder created when grabbing ntuples from grid.
-- 
2.43.0


From 2dc0f42eb0d916b1bdd4e163ba7e145c91524381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:04 +0000
Subject: [PATCH 69/87] fix: the directory of pre-made spectra can be set after
 the fit is created

---
 echidna/fit/fit.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/echidna/fit/fit.py b/echidna/fit/fit.py
index 9556059..ea6dfed 100644
--- a/echidna/fit/fit.py
+++ b/echidna/fit/fit.py
@@ -72,7 +72,7 @@ class Fit(object):
       _checked (bool): If True then the fit class is ready to be used.
       _use_pre_made (bool): Flag whether to load a pre-made spectrum
         for each systematic value, or apply convolutions on the fly.
-      _pre_made_dir (string): Directory in which pre-made convolved
+      _pre_made_base_dir (string): Directory in which pre-made convolved
         spectra are stored.
     """
     def __init__(self, roi, test_statistic, fit_config=None, data=None,
@@ -873,7 +873,8 @@ class Fit(object):
         if not os.path.isdir(directory):
             raise ValueError("Supplied directory %s is not a valid path."
                              % directory)
-        self._pre_made_dir = directory
+        self._pre_made_base_dir = directory
+        self._global_dict = {}  # Spectra loaded from elsewhere
 
     def shrink_all(self):
         """ Shrinks all the spectra used in the fit to the roi.
-- 
2.43.0


From 7e4ff39832d66c05dc617cca91098baa4853cbe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:04 +0000
Subject: [PATCH 70/87] fix: pre-made spectra are found whether or not the
 directory ends with a slash, or is the current one

---
 echidna/fit/fit.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/echidna/fit/fit.py b/echidna/fit/fit.py
index ea6dfed..273ca67 100644
--- a/echidna/fit/fit.py
+++ b/echidna/fit/fit.py
@@ -640,7 +640,9 @@ class Fit(object):
         if self._pre_made_base_dir:
             directory = self._pre_made_base_dir
         else:
-            directory = os.path.dirname(spectrum._location) + '/'
+            directory = os.path.dirname(spectrum._location)
+        if directory and directory[-1] != '/':
+            directory += '/'
 
         # Add current value of each global parameter
         for par in global_pars:
-- 
2.43.0


From fb7b522e2834d7bc56edc9668b2d161a149ed0fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:04 +0000
Subject: [PATCH 71/87] fix: pre-made spectra are found in directories whose
 names contain a dimension

---
 echidna/fit/fit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/echidna/fit/fit.py b/echidna/fit/fit.py
index 273ca67..dc0f03b 100644
--- a/echidna/fit/fit.py
+++ b/echidna/fit/fit.py
@@ -648,7 +648,7 @@ class Fit(object):
         for par in global_pars:
             dim = par._dimension
             added_dim = False
-            if dim not in directory:
+            if dim not in directory.split('/'):
                 added_dim = True
                 directory += dim + '/'
             directory, filename = par.get_pre_convolved(directory, filename,
-- 
2.43.0


From e414516961afcfca4e466629dfbbeb3c2365a41a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:04 +0000
Subject: [PATCH 72/87] fix: the name of a pre-made spectrum keeps the zeros of
 a whole number

---
 echidna/core/parameter.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/echidna/core/parameter.py b/echidna/core/parameter.py
index 4359a40..68c1bc5 100644
--- a/echidna/core/parameter.py
+++ b/echidna/core/parameter.py
@@ -794,8 +794,9 @@ class ResolutionParameter(FitParameter):
         else:
             ext = 'rs'
         value_string = str(self._current_value)
-        # Strip trailling zero in filename
-        value_string = value_string.rstrip('0').rstrip('.')
+        # Strip trailing zero in filename
+        if '.' in value_string:
+            value_string = value_string.rstrip('0').rstrip('.')
         filename_list = filename.split('_')
         temp_fname = ''
         subbed = False
@@ -908,8 +909,9 @@ class ScaleParameter(FitParameter):
         else:
             directory += 'scale/'
         value_string = str(self._current_value)
-        # Strip trailling zero in filename
-        value_string = value_string.rstrip('0').rstrip('.')
+        # Strip trailing zero in filename
+        if '.' in value_string:
+            value_string = value_string.rstrip('0').rstrip('.')
         filename_list = filename.split('_')
         temp_fname = ''
         subbed = False
@@ -1022,8 +1024,9 @@ class ShiftParameter(FitParameter):
         else:
             directory += 'shift/'
         value_string = str(self._current_value)
-        # Strip trailling zero in filename
-        value_string = value_string.rstrip('0').rstrip('.')
+        # Strip trailing zero in filename
+        if '.' in value_string:
+            value_string = value_string.rstrip('0').rstrip('.')
         filename_list = filename.split('_')
         temp_fname = ''
         subbed = False
-- 
2.43.0


From 0e18ec7c2cb24dfe3baf84981950c61e12226e27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:04 +0000
Subject: [PATCH 73/87] fix: only values are replaced in the name of a pre-made
 spectrum, not words ending like a unit

---
 echidna/core/parameter.py | 29 +++++++++++++++++++++++------
 1 file changed, 23 insertions(+), 6 deletions(-)

diff --git a/echidna/core/parameter.py b/echidna/core/parameter.py
index 68c1bc5..4b28038 100644
--- a/echidna/core/parameter.py
+++ b/echidna/core/parameter.py
@@ -11,6 +11,22 @@ import warnings
 from echidna.core import scale, shift, smear
 
 
+def _is_number(string):
+    """ Check for the value of a systematic in part of a filename.
+
+    Args:
+      string (string): Part of the filename, without the unit.
+
+    Returns:
+      bool: True if the string is a number.
+    """
+    try:
+        float(string)
+    except ValueError:
+        return False
+    return True
+
+
 class Parameter(object):
     """ The base class for creating parameter classes.
 
@@ -801,10 +817,11 @@ class ResolutionParameter(FitParameter):
         temp_fname = ''
         subbed = False
         for x in filename_list:
-            if x[-2:] == ext:
+            if x[-2:] == ext and _is_number(x[:-2]):
                 x = value_string + ext
                 subbed = True
-            elif x[-7:] == ext + ".hdf5":
+            elif (x[-7:] == ext + ".hdf5" and
+                  _is_number(x[:-7])):
                 x = value_string + ext + ".hdf5"
                 subbed = True
             if x[-5:] == ".hdf5":
@@ -916,10 +933,10 @@ class ScaleParameter(FitParameter):
         temp_fname = ''
         subbed = False
         for x in filename_list:
-            if x[-2:] == "sc":
+            if x[-2:] == "sc" and _is_number(x[:-2]):
                 x = value_string + "sc"
                 subbed = True
-            elif x[-7:] == "sc.hdf5":
+            elif x[-7:] == "sc.hdf5" and _is_number(x[:-7]):
                 x = value_string + "sc.hdf5"
                 subbed = True
             if x[-5:] == ".hdf5":
@@ -1031,10 +1048,10 @@ class ShiftParameter(FitParameter):
         temp_fname = ''
         subbed = False
         for x in filename_list:
-            if x[-2:] == "sh":
+            if x[-2:] == "sh" and _is_number(x[:-2]):
                 x = value_string + "sh"
                 subbed = True
-            elif x[-7:] == "sh.hdf5":
+            elif x[-7:] == "sh.hdf5" and _is_number(x[:-7]):
                 x = value_string + "sh.hdf5"
                 subbed = True
             if x[-5:] == ".hdf5":
-- 
2.43.0


From f5b54403ee485ab95e0feebfd59227f8d553358d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:52:23 +0000
Subject: [PATCH 74/87] fix: values computed by numpy, as those found by a fit,
 can be written in configurations

---
 echidna/util/yaml_loader.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/echidna/util/yaml_loader.py b/echidna/util/yaml_loader.py
index 42ca6b7..e2065d7 100644
--- a/echidna/util/yaml_loader.py
+++ b/echidna/util/yaml_loader.py
@@ -1,3 +1,4 @@
+import numpy
 import yaml
 from collections import OrderedDict
 
@@ -44,6 +45,10 @@ def ordered_dump(data, stream=None, **kwargs):
             yaml.resolver.BaseResolver.DEFAULT_MAPPING_TAG,
             data.items())
 
+    def _numpy_representer(dumper, data):
+        return dumper.represent_data(data.item())
+
     OrderedDumper.add_representer(OrderedDict, _dict_representer)
+    OrderedDumper.add_multi_representer(numpy.generic, _numpy_representer)
 
     yaml.dump(data, stream, OrderedDumper, **kwargs)
-- 
2.43.0


From 4a78d7e9bd67d07bdbd9ae3c7190e26ecfa0e994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:52:24 +0000
Subject: [PATCH 75/87] fix: the two files of a configuration named after it do
 not overwrite each other

---
 echidna/core/config.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/echidna/core/config.py b/echidna/core/config.py
index 9cb271c..3336c9f 100644
--- a/echidna/core/config.py
+++ b/echidna/core/config.py
@@ -333,7 +333,7 @@ class GlobalFitConfig(Config):
         if global_fname is None:
             global_fname = "global_fit_config"
         elif global_fname == "":
-            global_fname = self.get_name()
+            global_fname = self.get_name() + "_global"
         if ".yml" not in global_fname:
             global_fname += ".yml"
         with open(path+global_fname, "w") as stream:
@@ -343,7 +343,7 @@ class GlobalFitConfig(Config):
         if spectral_fname is None:
             spectral_fname = "spectral_fit_config"
         elif spectral_fname == "":
-            spectral_fname = self.get_name()
+            spectral_fname = self.get_name() + "_spectral"
         if ".yml" not in spectral_fname:
             spectral_fname += ".yml"
         with open(path+spectral_fname, "w") as stream:
@@ -577,7 +577,7 @@ class SpectraFitConfig(Config):
         if spectral_fname is None:
             spectral_fname = "spectral_fit_config"
         elif spectral_fname == "":
-            spectral_fname = self.get_name()
+            spectral_fname = self.get_name() + "_spectral"
         if ".yml" not in spectral_fname:
             spectral_fname += ".yml"
         with open(path+spectral_fname, "w") as stream:
-- 
2.43.0


From 1aee1587df5b3e87df52ba072848f3627aa8b523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:52:24 +0000
Subject: [PATCH 76/87] fix: an axis of a plot has as many values as the
 dimension has bins

---
 echidna/output/plot.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/echidna/output/plot.py b/echidna/output/plot.py
index fa22b8f..e8f04c0 100644
--- a/echidna/output/plot.py
+++ b/echidna/output/plot.py
@@ -19,8 +19,7 @@ def _produce_axis(spectra, dimension):
       :class:`numpy.array`: The values for the axis.
     """
     par = spectra.get_config().get_par(dimension)
-    width = par.get_width()
-    return numpy.arange(par._low, par._high, width) + 0.5*width
+    return par.get_bin_centres()
 
 
 def _produce_bins(spectra, dimension):
-- 
2.43.0


From db65dfb3197213ca7def6e4f05e7153cd162d97e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:52:24 +0000
Subject: [PATCH 77/87] fix: the ROOT spectral plot can be drawn

---
 echidna/output/plot_root.py | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/echidna/output/plot_root.py b/echidna/output/plot_root.py
index 0c157ae..d921d08 100644
--- a/echidna/output/plot_root.py
+++ b/echidna/output/plot_root.py
@@ -131,34 +131,34 @@ def spectral_plot(spectra_dict, dimension="energy", show_plot=False,
         spectra = value.get("spectra")
         if first_spectra:
             dim_type = spectra.get_config().get_dim_type(dimension)
-            par = spectra.get_config().get_par(dimension+"_"+dim_type)
+            dim_name = dimension + "_" + dim_type
+            par = spectra.get_config().get_par(dim_name)
             low = par._low
             high = par._high
             bins = par._bins
-            shape = (bins)  # Shape for summed arrays
             root_labels = "; %s (%s); Counts" % (dimension, par.get_unit())
             summed_background = ROOT.TH1F("summed_background", root_labels,
                                           bins, low, high)
             summed_total = ROOT.TH1F("summed_total", root_labels,
                                      bins, low, high)
-            summed_total = numpy.zeros(shape=shape)
             summed_background.SetLineStyle(7)
             summed_background.SetLineColor(ROOT.kRed)
             summed_total.SetLineStyle(7)
             summed_total.SetLineColor(ROOT.kBlack)
             leg.AddEntry(summed_total, "Background + Signal", "l")
             leg.AddEntry(summed_background, "Background", "l")
-            hist = spectra.project(dimension, graphical=False)
+            hist = plot_projection(spectra, dim_name, graphical=False)
             hist.SetLineColor(value.get("style")["color"])
             leg.AddEntry(hist, value.get("label"), 'l')
             hists.append(hist)
-            if value.get("type") is "background":
+            if value.get("type") == "background":
                 summed_background.Add(hist)
             summed_total.Add(hist)
             first_spectra = False
         else:
-            dim_type = spectra.get_config().get_dim_type("energy")
-            par = spectra.get_config().get_par("energy_"+dim_type)
+            dim_type = spectra.get_config().get_dim_type(dimension)
+            dim_name = dimension + "_" + dim_type
+            par = spectra.get_config().get_par(dim_name)
             if par._low != low:
                 raise AssertionError("Spectra " + spectra._name + " has "
                                      "incorrect energy lower limit")
@@ -168,11 +168,11 @@ def spectral_plot(spectra_dict, dimension="energy", show_plot=False,
             if par._bins != bins:
                 raise AssertionError("Spectra " + spectra._name + " has "
                                      "incorrect energy upper limit")
-            hist = spectra.project(dimension, graphical=False)
+            hist = plot_projection(spectra, dim_name, graphical=False)
             hist.SetLineColor(value.get("style")["color"])
             leg.AddEntry(hist, value.get("label"), 'l')
             hists.append(hist)
-            if value.get("type") is "background":
+            if value.get("type") == "background":
                 summed_background.Add(hist)
             summed_total.Add(hist)
     # Draw after making hists so they are drawn in the right order
@@ -183,8 +183,11 @@ def spectral_plot(spectra_dict, dimension="energy", show_plot=False,
 
     # Plot limit
     if limit:
-        hist = limit.project(dimension, graphical=False)
+        dim_type = limit.get_config().get_dim_type(dimension)
+        hist = plot_projection(limit, dimension + "_" + dim_type,
+                               graphical=False)
         hist.SetLineColor(ROOT.kGray)
+        hist.Draw("same")
         leg.AddEntry(hist, "Kamland-Zen Limit", "l")
     leg.Draw("same")
     return can
-- 
2.43.0


From 77a50b9d6501f72c7fd3cf5ec891a4032e91c38f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:52:24 +0000
Subject: [PATCH 78/87] fix: spectra made with the same configuration object do
 not share their binning

---
 echidna/core/spectra.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/echidna/core/spectra.py b/echidna/core/spectra.py
index 3588d46..a036248 100644
--- a/echidna/core/spectra.py
+++ b/echidna/core/spectra.py
@@ -17,7 +17,8 @@ class Spectra(object):
       name (str): The name of this spectra
       num_decays (float): The number of decays this spectra is created to
         represent.
-      spectra_config (:class:`SpectraConfig`): The configuration object
+      spectra_config (:class:`SpectraConfig`): The configuration object. The
+        spectra has its own copy of this.
       fit_config (:class:`FitConfig`, optional): The config used for fitting.
       background_name (str, optional): Name of the background
         e.g. TeLoadedTe130_2n2b
@@ -44,7 +45,9 @@ class Spectra(object):
                  background_name=None):
         """ Initialise the spectra data container.
         """
-        self._config = spectra_config
+        # Shrinking or rebinning this spectra must not affect any others which
+        # were made with the same config.
+        self._config = copy.deepcopy(spectra_config)
         self._raw_events = 0
         bins = []
         for v in self._config.get_pars():
-- 
2.43.0


From 01daad13db89f072b7adae4c74b84bf0712c74fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:52:24 +0000
Subject: [PATCH 79/87] fix: a fit created with shrink=False does not shrink
 its spectra

---
 echidna/fit/fit.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/echidna/fit/fit.py b/echidna/fit/fit.py
index dc0f03b..ae8cce3 100644
--- a/echidna/fit/fit.py
+++ b/echidna/fit/fit.py
@@ -92,7 +92,7 @@ class Fit(object):
         self.set_fit_config(fit_config)
 
         if data:
-            self.set_data(data)
+            self.set_data(data, shrink)
         else:  # set both as None for now
             self._data = None
             self._data_pars = None
@@ -100,7 +100,8 @@ class Fit(object):
                                  "manually before running the fit.")
 
         if fixed_backgrounds:  # spectra_dict in expected form
-            self.make_fixed_background(fixed_backgrounds)  # sets attribute
+            self.make_fixed_background(fixed_backgrounds,
+                                       shrink)  # sets attribute
         else:  # set both as None for now
             self._fixed_background = None
             self._fixed_pars = None
@@ -109,7 +110,7 @@ class Fit(object):
                                  "is required to run the fit.")
 
         if floating_backgrounds:
-            self.set_floating_backgrounds(floating_backgrounds)
+            self.set_floating_backgrounds(floating_backgrounds, shrink)
         else:  # Set both as None for now
             self._floating_backgrounds = None
             self._floating_pars = None
@@ -122,7 +123,7 @@ class Fit(object):
             par.check_values()  # raises an error if prior is not in values
 
         if signal:
-            self.set_signal(signal)
+            self.set_signal(signal, shrink)
         else:  # Set both as None for now
             self._signal = None
             self._signal_pars = None
-- 
2.43.0


From 66d77be6aab2f805f034960fe938d9d4749e545f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:08:27 +0000
Subject: [PATCH 80/87] fix: a limit scans its own signal in a fitter that
 holds another one

---
 echidna/limit/limit.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/echidna/limit/limit.py b/echidna/limit/limit.py
index 27b44b5..d50a2c4 100644
--- a/echidna/limit/limit.py
+++ b/echidna/limit/limit.py
@@ -154,7 +154,8 @@ class Limit(object):
             self._logger.debug("signal scale: %.4g" % scale)
             print "scale", scale
             if not numpy.isclose(scale, 0.):
-                if self._fitter.get_signal() is None:
+                # The fitter may hold no signal, or that of another limit
+                if self._fitter.get_signal() is not self._signal:
                     self._fitter.set_signal(self._signal, shrink=False)
                 self._fitter._signal.scale(scale)
             else:  # want no signal contribution
-- 
2.43.0


From b66b72bf9cd87f06df1bf55bed0d1ef536d6c057 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:08:27 +0000
Subject: [PATCH 81/87] fix: check spectra that are set after a fit was run

---
 echidna/fit/fit.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/echidna/fit/fit.py b/echidna/fit/fit.py
index ae8cce3..de656b9 100644
--- a/echidna/fit/fit.py
+++ b/echidna/fit/fit.py
@@ -697,6 +697,7 @@ class Fit(object):
         if shrink:
             self._fixed_background = total_spectrum  # No need to check
             self._fixed_pars = self.get_roi_pars(total_spectrum)
+            self._checked = False  # Must redo checks for a new spectrum
         else:
             self.set_fixed_background(total_spectrum, shrink)
 
@@ -722,6 +723,7 @@ class Fit(object):
         self._logger.debug("Setting Spectra with name %s as data" %
                            data.get_name())
         self._data_pars = self.get_roi_pars(data)
+        self._checked = False  # Must redo checks for a new spectrum
 
     def set_fit_config(self, fit_config):
         """
@@ -753,6 +755,7 @@ class Fit(object):
             self.check_spectra(fixed_background)
         self._fixed_background = fixed_background
         self._fixed_pars = self.get_roi_pars(fixed_background)
+        self._checked = False  # Must redo checks for a new spectrum
 
     def set_floating_backgrounds(self, floating_backgrounds, shrink=True):
         """ Sets the floating backgrounds you want to fit.
@@ -779,6 +782,7 @@ class Fit(object):
         self._floating_backgrounds = floating_backgrounds
         self._floating_pars = floating_pars
         self._global_dict = {}
+        self._checked = False  # Must redo checks for a new spectrum
 
     def set_minimiser(self, minimiser=None):
         """ Sets the minimiser to use in fitting.
@@ -863,6 +867,7 @@ class Fit(object):
         self._logger.debug("Set _signal as Spectra with name %s" %
                            signal.get_name())
         self._signal_pars = self.get_roi_pars(signal)
+        self._checked = False  # Must redo checks for a new spectrum
 
     def set_pre_made_dir(self, directory):
         """ Sets the directory in which pre-made convolved spectra are
-- 
2.43.0


From 1b6c5e69859db68c03e5e7ed40d75573cda6e3d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:08:27 +0000
Subject: [PATCH 82/87] fix: appending to the fixed background leaves the
 spectrum it was set with unchanged

---
 echidna/fit/fit.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/echidna/fit/fit.py b/echidna/fit/fit.py
index de656b9..05c7686 100644
--- a/echidna/fit/fit.py
+++ b/echidna/fit/fit.py
@@ -159,13 +159,16 @@ class Fit(object):
           shrink (bool, optional): If set to True (default), :meth:`shrink`
             method is called on the spectra shrinking it to the ROI.
         '''
+        # Copy, the fixed background that was set is unchanged as well
+        total_spectrum = copy.copy(self._fixed_background)
         for spectrum, scaling in spectra_dict.iteritems():
             # Copy so original spectra is unchanged
             spectrum = copy.copy(spectrum)
             if shrink:
                 self.shrink_spectra(spectrum)
             spectrum.scale(scaling)
-            self._fixed_background.add(spectrum)
+            total_spectrum.add(spectrum)
+        self._fixed_background = total_spectrum
 
     def check_all_spectra(self):
         """ Ensures that all spectra can be used for fitting.
-- 
2.43.0


From a0b7b3861298e907f9035628e061b698485890ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:08:27 +0000
Subject: [PATCH 83/87] fix: an empty plotting style survives saving

---
 echidna/output/store.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/echidna/output/store.py b/echidna/output/store.py
index 057e34e..343fd1a 100644
--- a/echidna/output/store.py
+++ b/echidna/output/store.py
@@ -112,10 +112,8 @@ def dump(file_path, spectrum, append=False, overwrite=False,
         group.attrs["num_decays"] = spectrum.get_num_decays()
         group.attrs["raw_events"] = spectrum._raw_events
         group.attrs["bipo"] = spectrum.get_bipo()
-        if len(spectrum.get_style()) == 0:
-            group.attrs["style"] = ""
-        else:
-            group.attrs["style"] = json.dumps(spectrum.get_style())
+        # Also if empty, otherwise the default style would be loaded
+        group.attrs["style"] = json.dumps(spectrum.get_style())
         if len(spectrum._rois) == 0:
             group.attrs["rois"] = ""
         else:
-- 
2.43.0


From 403140febcb874244997ea609c3ecbba74ea091e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:50:58 +0000
Subject: [PATCH 84/87] fix: a spectrum that cannot be saved leaves the file as
 it was

---
 echidna/output/store.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/echidna/output/store.py b/echidna/output/store.py
index 343fd1a..ff9a40a 100644
--- a/echidna/output/store.py
+++ b/echidna/output/store.py
@@ -91,6 +91,8 @@ def dump(file_path, spectrum, append=False, overwrite=False,
       group_name (string, optional): Name of the group to save to.
         Several spectra can be saved to one file with different groups.
     """
+    # Raises an error if there is none, before any file is changed
+    background_name = spectrum.get_background_name()
     if append:
         file_opt = "a"
     else:
@@ -101,7 +103,7 @@ def dump(file_path, spectrum, append=False, overwrite=False,
             del file_[group_name]
         group = file_.create_group(group_name)
         group.attrs["name"] = spectrum.get_name()
-        group.attrs["background_name"] = spectrum.get_background_name()
+        group.attrs["background_name"] = background_name
         group.attrs["config_name"] = spectrum.get_config().get_name()
         group.attrs["config"] = json.dumps(spectrum.get_config().dump())
         if spectrum.get_fit_config():
-- 
2.43.0


From c8540cd7e246f4ea9511ff6b76a0b5d84184ed11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:50:58 +0000
Subject: [PATCH 85/87] fix: a saved fit config keeps the name of the spectrum
 it is for

---
 echidna/output/store.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/echidna/output/store.py b/echidna/output/store.py
index ff9a40a..492360a 100644
--- a/echidna/output/store.py
+++ b/echidna/output/store.py
@@ -111,6 +111,8 @@ def dump(file_path, spectrum, append=False, overwrite=False,
                 get_name()
             group.attrs["fit_config"] = json.dumps(
                 spectrum.get_fit_config().dump())
+            group.attrs["fit_config_spectra_name"] = \
+                spectrum.get_fit_config()._spectra_name
         group.attrs["num_decays"] = spectrum.get_num_decays()
         group.attrs["raw_events"] = spectrum._raw_events
         group.attrs["bipo"] = spectrum.get_bipo()
@@ -297,11 +299,15 @@ def load(file_path, group_name="spectrum"):
                 name=config_name)
             try:
                 fit_config_name = group.attrs["fit_config_name"]
+                if "fit_config_spectra_name" in group.attrs:
+                    spectra_name = group.attrs["fit_config_spectra_name"]
+                else:  # Saved by older version
+                    spectra_name = spec_name
                 fit_config = SpectraFitConfig.load(
                     json.loads(
                         group.attrs["fit_config"],
                         object_pairs_hook=OrderedDict),
-                    spectra_name=spec_name, name=fit_config_name)
+                    spectra_name=spectra_name, name=fit_config_name)
             except KeyError as detail:
                 _logger.warning("Handling run-time error: %s" % detail)
                 logging.getLogger("extra").warning(" --> setting to None")
-- 
2.43.0


From 4580adee92762fc1a6e45cfe859d4a22cdf04b59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:28:38 +0000
Subject: [PATCH 86/87] fix: rebinning to an impossible number of bins is
 refused before anything changes

---
 echidna/core/spectra.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/echidna/core/spectra.py b/echidna/core/spectra.py
index a036248..a09a1db 100644
--- a/echidna/core/spectra.py
+++ b/echidna/core/spectra.py
@@ -387,12 +387,14 @@ class Spectra(object):
                              % len(self._config.get_pars()))
         # Check all dimensions before changing any of them
         for i, v in enumerate(self._config.get_pars()):
-            if self._config.get_par(v)._bins % new_bins[i] != 0:
+            if (new_bins[i] < 1 or new_bins[i] != int(new_bins[i]) or
+                    self._config.get_par(v)._bins % new_bins[i] != 0):
                 raise ValueError("Old bins/New bins must be integer old: %s"
                                  " new: %s for parameter %s"
                                  % (self._config.get_par(v)._bins,
                                     new_bins[i], v))
         # Now do the rebinning
+        new_bins = [int(bins) for bins in new_bins]
         for i, v in enumerate(self._config.get_pars()):
             self._config.get_par(v)._bins = new_bins[i]
 
-- 
2.43.0


From 2feac17fbe13270b02da872b45b3ce675d4dd2cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:41:17 +0000
Subject: [PATCH 87/87] fix: a refused set_par leaves the parameter as it was

---
 echidna/core/parameter.py | 32 ++++++++++++++++++--------------
 1 file changed, 18 insertions(+), 14 deletions(-)

diff --git a/echidna/core/parameter.py b/echidna/core/parameter.py
index 4b28038..c11da37 100644
--- a/echidna/core/parameter.py
+++ b/echidna/core/parameter.py
@@ -578,34 +578,36 @@ class FitParameter(Parameter):
         Raises:
           TypeError: Unknown variable type passed as a kwarg.
         """
+        updated = {}  # Nothing is changed unless everything is accepted
         for kw in kwargs:
             self._logger.warning("Updating value for %s (%s --> %s)" %
                                  (kw, self.__dict__.get("_"+kw), kwargs[kw]))
             if kw == "prior":
-                self._prior = float(kwargs[kw])
+                updated["_prior"] = float(kwargs[kw])
             elif kw == "sigma":
                 if kwargs[kw] is None:
                     self._logger.warning("Setting sigma explicitly as None - "
                                          "No penalty term will be applied")
-                self._sigma = kwargs[kw]
+                updated["_sigma"] = kwargs[kw]
             elif kw == "low":
-                self._low = float(kwargs[kw])
+                updated["_low"] = float(kwargs[kw])
             elif kw == "high":
-                self._high = float(kwargs[kw])
+                updated["_high"] = float(kwargs[kw])
             elif kw == "bins":
-                self._bins = int(kwargs[kw])
+                updated["_bins"] = int(kwargs[kw])
             elif kw == "logscale":
-                self._logscale = bool(kwargs[kw])
-                if self._logscale and self._base is None:
-                    self._base = numpy.e
+                updated["_logscale"] = bool(kwargs[kw])
+                if updated["_logscale"] and self._base is None:
+                    updated.setdefault("_base", numpy.e)
             elif kw == "base":
-                self._base = float(kwargs[kw])
+                updated["_base"] = float(kwargs[kw])
             elif kw == "logscale_deviation":
-                self._logscale_deviation = bool(kwargs[kw])
+                updated["_logscale_deviation"] = bool(kwargs[kw])
             elif kw == "dimension":
-                self._dimension = str(kwargs[kw])
+                updated["_dimension"] = str(kwargs[kw])
             else:
                 raise TypeError("Unhandled parameter name / type %s" % kw)
+        self.__dict__.update(updated)
         self._logger.warning("Setting _values and _bin_boundaries to None")
         self._values = None
         self._bin_boundaries = None
@@ -1185,12 +1187,14 @@ class SpectraParameter(Parameter):
         Raises:
           TypeError: Unknown variable type passed as a kwarg.
         """
+        updated = {}  # Nothing is changed unless everything is accepted
         for kw in kwargs:
             if kw == "low":
-                self._low = float(kwargs[kw])
+                updated["_low"] = float(kwargs[kw])
             elif kw == "high":
-                self._high = float(kwargs[kw])
+                updated["_high"] = float(kwargs[kw])
             elif kw == "bins":
-                self._bins = int(kwargs[kw])
+                updated["_bins"] = int(kwargs[kw])
             else:
                 raise TypeError("Unhandled parameter name / type %s" % kw)
+        self.__dict__.update(updated)
-- 
2.43.0

