From 1ac6497b7bd32509f4671e4b9e23d082993d26f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:36 +0000
Subject: [PATCH 01/47] fix: an interrupted cached computation must not poison
 the signal caches

A failing or interrupted method wrapped by cache_call left its key in the
cache list without a value (so the next calls raised KeyError), or left an
older entry valid although its side effects had been partly overwritten.
---
 enterprise/signals/signal_base.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/enterprise/signals/signal_base.py b/enterprise/signals/signal_base.py
index f6da48a..6d06fb9 100644
--- a/enterprise/signals/signal_base.py
+++ b/enterprise/signals/signal_base.py
@@ -1055,11 +1055,16 @@ def cache_call(attrs, limit=2):
                 msg = "Setting cache for {} in {}: {}".format(attrs, self.__class__, key)
                 logger.debug(msg)
 
-                cache_list.append(key)
-                cache[key] = func(self, params)
-
-                if len(cache_list) > limit:
+                # make room before computing: if func is interrupted, no entry may
+                # survive that its (possible) side effects have invalidated, and
+                # a key is recorded only once its value is available
+                while len(cache_list) >= limit:
                     _ = cache.pop(cache_list.pop(0), None)  # noqa: F841
+
+                value = func(self, params)
+
+                cache_list.append(key)
+                cache[key] = value
             else:
                 msg = "Retrieving cache for {} in {}: {}".format(attrs, self.__class__, key)
                 logger.debug(msg)
-- 
2.43.0


From 8e051a684fb8ff19ec0d840cf1b055e1802ab51a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:43 +0000
Subject: [PATCH 02/47] fix: sparse ECORR kernel must not alias the matrices it
 caches

get_ndiag(method='sparse') overwrote and returned the same matrix for every
parameter set, so that a cached entry held the latest values and the
likelihood depended on the history of evaluations.
---
 enterprise/signals/white_signals.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/enterprise/signals/white_signals.py b/enterprise/signals/white_signals.py
index f963fee..b7aa370 100644
--- a/enterprise/signals/white_signals.py
+++ b/enterprise/signals/white_signals.py
@@ -264,11 +264,13 @@ def EcorrKernelNoise(
             self._Ns = signal_base.csc_matrix_alt(Ns)
 
         def _get_ndiag_sparse(self, params):
+            # fill a copy, since the result is cached for each set of parameters
+            Ns = self._Ns.copy()
             for p in self._params:
                 for idx in self._idxs[p]:
                     if len(idx) > 1:
-                        self._Ns[np.ix_(idx, idx)] = 10 ** (2 * self.get(p, params))
-            return self._Ns
+                        Ns[np.ix_(idx, idx)] = 10 ** (2 * self.get(p, params))
+            return Ns
 
         def _get_ndiag_sherman_morrison(self, params):
             slices, jvec = self._get_jvecs(params)
-- 
2.43.0


From 617135026788211f0ab5a45d390e37c234f18dc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:43 +0000
Subject: [PATCH 03/47] fix: physical-ephemeris delay must not alias the arrays
 it caches

With use_epoch_toas=True the same array was overwritten and returned for
every parameter set, so that cached delays held the latest values.
---
 enterprise/signals/deterministic_signals.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/enterprise/signals/deterministic_signals.py b/enterprise/signals/deterministic_signals.py
index d0ee0db..b7eb91a 100644
--- a/enterprise/signals/deterministic_signals.py
+++ b/enterprise/signals/deterministic_signals.py
@@ -199,9 +199,11 @@ def PhysicalEphemerisSignal(
             if use_epoch_toas:
                 delay = self._wf[""](toas=self._avetoas, planetssb=self._planetssb, pos_t=self._pos_t, params=params)
 
+                # fill a copy, since the result is cached for each set of parameters
+                ret = self._delay.copy()
                 for slc, val in zip(self._uinds, delay):
-                    self._delay[slc] = val
-                return self._delay
+                    ret[slc] = val
+                return ret
             else:
                 delay = self._wf[""](params=params)
                 return delay
-- 
2.43.0


From 5908fdb63771dd34c112001a6ee0966908d127f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:22 +0000
Subject: [PATCH 04/47] fix: set_default_params must take effect on models
 already evaluated

Cache keys hold only the varying parameters, so values computed before
Constant parameters were (re)set kept being returned.
---
 enterprise/signals/signal_base.py | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/enterprise/signals/signal_base.py b/enterprise/signals/signal_base.py
index 6d06fb9..3b98a6c 100644
--- a/enterprise/signals/signal_base.py
+++ b/enterprise/signals/signal_base.py
@@ -62,6 +62,13 @@ def simplememobyid(method):
     return memoizedfunc
 
 
+def _clear_caches(instance):
+    """Forget all the values saved in `instance` by cache_call."""
+
+    for attr in [attr for attr in instance.__dict__ if attr.startswith("_cache_")]:
+        del instance.__dict__[attr]
+
+
 class MetaSignal(type):
     """Metaclass for Signals. Allows addition of ``Signal`` classes."""
 
@@ -127,6 +134,8 @@ class Signal(object):
                 msg = "Setting {} to {}".format(par.name, params[par.name])
                 logger.info(msg)
                 self._params[kw].value = params[par.name]
+                # the cache keys include only the varying parameters
+                _clear_caches(self)
             elif par.name not in params and isinstance(par, ConstantParameter):
                 if par.value is None:
                     msg = "{} not set! Check parameter dict.".format(par.name)
@@ -366,6 +375,9 @@ class PTA(object):
         for sc in self._signalcollections:
             sc.set_default_params(params)
 
+        # drop the analyzed Cholesky factor, since the bases may have changed
+        self.__dict__.pop("_lnlike", None)
+
     def get_basis(self, params={}):
         return [signalcollection.get_basis(params) for signalcollection in self._signalcollections]
 
@@ -874,6 +886,12 @@ def SignalCollection(metasignals):  # noqa: C901
             for signal in self._signals:
                 signal.set_default_params(params)
 
+            # the constant parameters of the signals may have changed, but
+            # they do not appear in the cache keys; also redo _idx and _Fmat
+            _clear_caches(self)
+            for attr in ("_idx", "_Fmat"):
+                self.__dict__.pop(attr, None)
+
         def _combine_basis_columns(self, signals):
             """Given a set of Signal objects, each of which may return an
             Fmat (through get_basis()), return a dict (indexed by signal)
-- 
2.43.0


From 21a89ab7124ea907dbfd6f443fd1e7e3cdfd6ebb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:28 +0000
Subject: [PATCH 05/47] fix: GP-coefficient delays depend on the varying basis
 parameters

SignalCollection caches delays by delay_params, which left out the basis
parameters of signals with coefficients=True.
---
 enterprise/signals/gp_signals.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/enterprise/signals/gp_signals.py b/enterprise/signals/gp_signals.py
index a504a41..ee1b550 100644
--- a/enterprise/signals/gp_signals.py
+++ b/enterprise/signals/gp_signals.py
@@ -135,7 +135,8 @@ def BasisGP(
             # MV: could assign this to a data member at initialization
             @property
             def delay_params(self):
-                return [pp.name for pp in self.params if "_coefficients" in pp.name]
+                # the delay depends also on any varying basis parameters
+                return [pp.name for pp in self.params if "_coefficients" in pp.name] + self.basis_params
 
             @signal_base.cache_call(["basis_params", "delay_params"])
             def get_delay(self, params={}):
@@ -357,7 +358,8 @@ def BasisCommonGP(priorFunction, basisFunction, orfFunction, coefficients=False,
 
             @property
             def delay_params(self):
-                return [pp.name for pp in self.params if "_coefficients" in pp.name]
+                # the delay depends also on any varying basis parameters
+                return [pp.name for pp in self.params if "_coefficients" in pp.name] + self.basis_params
 
             @signal_base.cache_call(["basis_params", "delay_params"])
             def get_delay(self, params={}):
-- 
2.43.0


From febe5f462fa99d0deeb8a3096fe1007b4c62a6a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:51 +0000
Subject: [PATCH 06/47] fix: views of inflated pulsar arrays must keep the
 shared memory mapped

The memmap was itself a view of a plain ndarray, so plain-ndarray views had
that array as their base, skipped the memmap that owns the SharedMemory, and
were left pointing to unmapped memory once the pulsar was garbage collected.
---
 enterprise/pulsar_inflate.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/enterprise/pulsar_inflate.py b/enterprise/pulsar_inflate.py
index fda5fc6..d223dfb 100644
--- a/enterprise/pulsar_inflate.py
+++ b/enterprise/pulsar_inflate.py
@@ -50,7 +50,9 @@ class PulsarInflater:
     def inflate(self):
         shm = shared_memory.SharedMemory(self.shmname)
 
-        c = np.ndarray(self.shape, dtype=self.dtype, buffer=shm.buf).view(memmap)
+        # build the memmap directly (not as a view of a plain ndarray), so that numpy
+        # cannot skip it in the chain of bases: all views must keep shm alive
+        c = memmap(self.shape, dtype=self.dtype, buffer=shm.buf)
         c.shm = shm
 
         return c
-- 
2.43.0


From d8d372c065b5c9274dcb3284ed746c189af6ed3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:16 +0000
Subject: [PATCH 07/47] fix: a process that inflates a pulsar must not unlink
 it on exit

SharedMemory registers with the resource tracker also when it attaches to
an existing buffer (as it does when it creates one), so the shared arrays
were removed under all other processes once the first user exited.
---
 enterprise/pulsar_inflate.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/enterprise/pulsar_inflate.py b/enterprise/pulsar_inflate.py
index d223dfb..3fb228f 100644
--- a/enterprise/pulsar_inflate.py
+++ b/enterprise/pulsar_inflate.py
@@ -50,6 +50,10 @@ class PulsarInflater:
     def inflate(self):
         shm = shared_memory.SharedMemory(self.shmname)
 
+        # attaching registers the buffer with the resource tracker of this process,
+        # which would unlink it (for everybody) when this process exits
+        resource_tracker.unregister(shm._name, "shared_memory")
+
         # build the memmap directly (not as a view of a plain ndarray), so that numpy
         # cannot skip it in the chain of bases: all views must keep shm alive
         c = memmap(self.shape, dtype=self.dtype, buffer=shm.buf)
-- 
2.43.0


From c52aa5e4265d6fd143920ada8772504704d63284 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:22 +0000
Subject: [PATCH 08/47] fix: deflate and inflate must leave the pulsar
 unchanged when they fail

If shared memory ran out half way, deflate left a half-deflated (unusable)
pulsar and leaked the buffers it had already created, and a half-inflated
pulsar could no longer be destroyed completely. Pulsars without flags
could not be deflated at all.
---
 enterprise/pulsar.py         | 25 ++++++++++++++++++-------
 enterprise/pulsar_inflate.py |  9 +++++++--
 2 files changed, 25 insertions(+), 9 deletions(-)

diff --git a/enterprise/pulsar.py b/enterprise/pulsar.py
index ffac41a..ed48805 100644
--- a/enterprise/pulsar.py
+++ b/enterprise/pulsar.py
@@ -640,19 +640,30 @@ class Tempo2Pulsar(BasePulsar):
 
     def deflate(psr):  # pragma: py-lt-38
         if psr._deflated == "pristine":
-            for attr in psr._todeflate:
-                if isinstance(getattr(psr, attr), np.ndarray):
-                    setattr(psr, attr, PulsarInflater(getattr(psr, attr)))
-
-            psr._deflated = "deflated"
+            # change the pulsar only once all buffers are available
+            inflaters = {}
+            try:
+                for attr in psr._todeflate:
+                    array = getattr(psr, attr)
+                    # (empty arrays cannot be shared, but can be pickled as they are)
+                    if isinstance(array, np.ndarray) and array.nbytes > 0:
+                        inflaters[attr] = PulsarInflater(array)
+            except BaseException:
+                for inflater in inflaters.values():
+                    inflater.destroy()
+                raise
+
+            psr.__dict__.update(inflaters, _deflated="deflated")
 
     def inflate(psr):  # pragma: py-lt-38
         if psr._deflated == "deflated":
+            # change the pulsar only once all arrays are available
+            arrays = {}
             for attr in psr._todeflate:
                 if isinstance(getattr(psr, attr), PulsarInflater):
-                    setattr(psr, attr, getattr(psr, attr).inflate())
+                    arrays[attr] = getattr(psr, attr).inflate()
 
-            psr._deflated = "inflated"
+            psr.__dict__.update(arrays, _deflated="inflated")
 
     def destroy(psr):  # pragma: py-lt-38
         if psr._deflated == "deflated":
diff --git a/enterprise/pulsar_inflate.py b/enterprise/pulsar_inflate.py
index 3fb228f..8fb85d4 100644
--- a/enterprise/pulsar_inflate.py
+++ b/enterprise/pulsar_inflate.py
@@ -42,8 +42,13 @@ class PulsarInflater:
 
         # shm.buf[:array.nbytes] = array.view(dtype='uint8').flatten()
 
-        b = np.ndarray(array.shape, dtype=array.dtype, buffer=shm.buf)
-        b[:] = array[:]
+        try:
+            b = np.ndarray(array.shape, dtype=array.dtype, buffer=shm.buf)
+            b[:] = array[:]
+        except BaseException:
+            # nobody else knows about this buffer
+            shm.unlink()
+            raise
 
         resource_tracker.unregister(shm._name, "shared_memory")
 
-- 
2.43.0


From 6855b31c83c2a450a7edd3d7c0a79005ba18bc38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:36 +0000
Subject: [PATCH 09/47] fix: a destroy that failed half way can be repeated

After a partial failure the buffers already unlinked made every later
destroy() fail with FileNotFoundError, leaking the remaining ones.
---
 enterprise/pulsar_inflate.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/enterprise/pulsar_inflate.py b/enterprise/pulsar_inflate.py
index 8fb85d4..ee4cbf9 100644
--- a/enterprise/pulsar_inflate.py
+++ b/enterprise/pulsar_inflate.py
@@ -4,6 +4,8 @@ and (after pickling) will reinflate to a numpy array that refers to the shared
 data.
 """
 
+import contextlib
+
 import numpy as np
 
 try:
@@ -67,5 +69,8 @@ class PulsarInflater:
         return c
 
     def destroy(self):
-        shm = shared_memory.SharedMemory(self.shmname)
-        shm.unlink()
+        # destroying again what is already gone is not an error, so that
+        # a destroy that failed half way can be completed
+        with contextlib.suppress(FileNotFoundError):
+            shm = shared_memory.SharedMemory(self.shmname)
+            shm.unlink()
-- 
2.43.0


From 743eee805d5a5898c412a0f907fbd6dbc8609d71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:19 +0000
Subject: [PATCH 10/47] fix: saving pulsars to feather files raised
 AttributeError

save_feather looked up the metadata list on the Pulsar loader function, and
an attribute that pulsars read from feather files do not have.
---
 enterprise/pulsar.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/enterprise/pulsar.py b/enterprise/pulsar.py
index ed48805..6ee3b37 100644
--- a/enterprise/pulsar.py
+++ b/enterprise/pulsar.py
@@ -742,8 +742,8 @@ class FeatherPulsar:
         return a.tolist() if isinstance(a, np.ndarray) else a
 
     def save_feather(self, filename, noisedict=None):
-        self._toas = self._toas.astype(float)
         pydict = {array: getattr(self, array) for array in FeatherPulsar.columns}
+        pydict["toas"] = pydict["toas"].astype(float)
 
         pydict.update(
             {
@@ -765,9 +765,9 @@ class FeatherPulsar:
         pydict.update({f"flags_{flag}": self.flags[flag] for flag in self.flags})
 
         meta = {}
-        for attr in Pulsar.metadata:
+        for attr in FeatherPulsar.metadata:
             if hasattr(self, attr):
-                meta[attr] = Pulsar.to_list(getattr(self, attr))
+                meta[attr] = FeatherPulsar.to_list(getattr(self, attr))
             else:
                 print(f"Pulsar.save_feather: cannot find {attr} in Pulsar {self.name}.")
 
-- 
2.43.0


From 71c41332c760105eee1264937eaa41146a970eaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:10 +0000
Subject: [PATCH 11/47] fix: filter_data must select the same TOAs in all the
 data of a pulsar

Observatory TOAs, telescopes, Sun and pulsar positions were left unfiltered,
planet positions were taken in sorted order with an unsorted mask, and the
fitted parameters no longer matched the columns of the design matrix.
Giving only one of start_time and end_time raised TypeError.
---
 enterprise/pulsar.py | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/enterprise/pulsar.py b/enterprise/pulsar.py
index 6ee3b37..46d8976 100644
--- a/enterprise/pulsar.py
+++ b/enterprise/pulsar.py
@@ -137,19 +137,29 @@ class BasePulsar(object):
 
     def filter_data(self, start_time=None, end_time=None):
         """Filter data to create a time-slice of overall dataset."""
-        if start_time is None and end_time is None:
-            mask = np.ones(self._toas.shape, dtype=bool)
-        else:
-            mask = np.logical_and(self._toas >= start_time * 86400, self._toas <= end_time * 86400)
+        mask = np.ones(self._toas.shape, dtype=bool)
+        if start_time is not None:
+            mask = np.logical_and(mask, self._toas >= start_time * 86400)
+        if end_time is not None:
+            mask = np.logical_and(mask, self._toas <= end_time * 86400)
 
         self._toas = self._toas[mask]
+        self._stoas = self._stoas[mask]
         self._toaerrs = self._toaerrs[mask]
         self._residuals = self._residuals[mask]
         self._ssbfreqs = self._ssbfreqs[mask]
+        self._telescope = self._telescope[mask]
 
+        # drop the fit parameters that have no effect on the remaining data
         self._designmatrix = self._designmatrix[mask, :]
-        dmx_mask = np.sum(self._designmatrix, axis=0) != 0.0
+        dmx_mask = np.any(self._designmatrix != 0.0, axis=0)
         self._designmatrix = self._designmatrix[:, dmx_mask]
+        dropped = [par for par, keep in zip(self.fitpars, dmx_mask) if not keep]
+        self.fitpars = [par for par, keep in zip(self.fitpars, dmx_mask) if keep]
+        if hasattr(self, "designmatrix_units"):
+            self.designmatrix_units = [un for un, keep in zip(self.designmatrix_units, dmx_mask) if keep]
+        if self._dmx is not None:
+            self._dmx = {par: dmx for par, dmx in self._dmx.items() if par not in dropped}
 
         if isinstance(self._flags, np.ndarray):
             self._flags = self._flags[mask]
@@ -157,8 +167,12 @@ class BasePulsar(object):
             for key in self._flags:
                 self._flags[key] = self._flags[key][mask]
 
+        # these are stored in the original order of the data
+        self._pos_t = self._pos_t[mask, :]
         if self._planetssb is not None:
-            self._planetssb = self.planetssb[mask, :, :]
+            self._planetssb = self._planetssb[mask, :, :]
+        if self._sunssb is not None:
+            self._sunssb = self._sunssb[mask, :]
 
         self.sort_data()
 
-- 
2.43.0


From 71a215a63ac4a1efc5cf0e38b7035c04b19e0740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:36 +0000
Subject: [PATCH 12/47] fix: a seeded phase shift must not reset the global
 random stream

Building a Fourier basis with pseed called numpy.random.seed, so all later
draws (of parameters, coefficients, samplers) repeated for every model.
---
 enterprise/signals/gp_bases.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/enterprise/signals/gp_bases.py b/enterprise/signals/gp_bases.py
index f924be1..3a00b35 100644
--- a/enterprise/signals/gp_bases.py
+++ b/enterprise/signals/gp_bases.py
@@ -73,9 +73,12 @@ def createfourierdesignmatrix_red(
         if pseed is not None:
             # use the first toa to make a different seed for every pulsar
             seed = int(toas[0] / 17) + int(pseed)
-            np.random.seed(seed)
+            # use a separate generator: the caller's random stream is not ours to reset
+            rng = np.random.RandomState(seed)
+        else:
+            rng = np.random
 
-        ranphase = np.random.uniform(0.0, 2 * np.pi, nmodes)
+        ranphase = rng.uniform(0.0, 2 * np.pi, nmodes)
     else:
         ranphase = np.zeros(nmodes)
 
-- 
2.43.0


From ab3f9808edb30aa5d0d63b47af87706fbbfaee76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:43 +0000
Subject: [PATCH 13/47] fix: sample hyperparameters only once in a joint draw

Parameters were looked up by object in a dictionary indexed by name, so
hyperparameters shared by several parameters were drawn again for each of
them, and the values returned were not those used to draw the first ones.
---
 enterprise/signals/parameter.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/enterprise/signals/parameter.py b/enterprise/signals/parameter.py
index 065f7f2..4058724 100644
--- a/enterprise/signals/parameter.py
+++ b/enterprise/signals/parameter.py
@@ -28,10 +28,10 @@ def _sample(parlist, parvalues):
     """Recursive function used by sample()."""
 
     for par in parlist:
-        if par not in parvalues:
-            # RvH: Hyper pars seem to be broken
-            # sample hyperpars for this par, skip parameter itself
-            parvalues.update(sample(par.params[1:]))
+        if par.name not in parvalues:
+            # sample hyperpars for this par (unless we already have
+            # them), skip parameter itself
+            _sample(par.params[1:], parvalues)
 
             parvalues[par.name] = par.sample(params=parvalues)
 
-- 
2.43.0


From 9823acfdd6d237734e3f9b5c5e6a482b03669a06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:51 +0000
Subject: [PATCH 14/47] fix: get_maxobs must count TOAs next to INCLUDE
 statements

In a tim file that mixes INCLUDEs and TOA lines, the latter were not
counted, so the observations could exceed the space requested for them.
---
 enterprise/pulsar.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/enterprise/pulsar.py b/enterprise/pulsar.py
index 46d8976..65fcf94 100644
--- a/enterprise/pulsar.py
+++ b/enterprise/pulsar.py
@@ -60,11 +60,11 @@ def get_maxobs(timfile):
     with open(timfile) as tfile:
         flines = tfile.readlines()
         lines = [ln for ln in flines if not ln.startswith("C")]
-        if any(["INCLUDE" in ln for ln in lines]):
-            for line in [ln for ln in lines if "INCLUDE" in ln]:
+        for line in lines:
+            if "INCLUDE" in line:
                 maxobs += get_maxobs(line.split()[-1])
-        else:
-            maxobs = sum(1 for line in lines if line.rstrip("\n"))
+            elif line.rstrip("\n"):
+                maxobs += 1
     return maxobs
 
 
-- 
2.43.0


From fe2dd0f4723f8841ec9701433c26061fd90844be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:04 +0000
Subject: [PATCH 15/47] fix: merge the cliques of Phi that a common signal
 connects

numpy.in1d does not look inside a set, so cliques were never merged, and
with dense per-pulsar (or dense common) priors on shared columns the default
clique method returned a wrong inverse of Phi.
---
 enterprise/signals/signal_base.py | 4 ++--
 enterprise/signals/utils.py       | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/enterprise/signals/signal_base.py b/enterprise/signals/signal_base.py
index 3b98a6c..7959a4c 100644
--- a/enterprise/signals/signal_base.py
+++ b/enterprise/signals/signal_base.py
@@ -602,7 +602,7 @@ class PTA(object):
                 # I don't think this code is ever exercised...
                 # if maxidx == -1, then allidx = [-1]
                 if len(allidx) > 1:
-                    self._cliques[np.in1d(self._cliques, allidx)] = self._clcount
+                    self._cliques[np.isin(self._cliques, list(allidx - {-1}))] = self._clcount
 
                 self._clcount = self._clcount + 1
             else:
@@ -614,7 +614,7 @@ class PTA(object):
                 # since cliques are "contagious", reassign all the other
                 # clique indices that we found to maxidx
                 if len(allidx) > 1:
-                    self._cliques[np.in1d(self._cliques, allidx)] = maxidx
+                    self._cliques[np.isin(self._cliques, list(allidx - {-1}))] = maxidx
 
     # add cliques from individual pulsar phis; these will never overlap
     # TO DO: at this point Phi could be defined as a smarter KernelMatrix!
diff --git a/enterprise/signals/utils.py b/enterprise/signals/utils.py
index 333368d..e4fbabd 100644
--- a/enterprise/signals/utils.py
+++ b/enterprise/signals/utils.py
@@ -250,7 +250,7 @@ class KernelMatrix(np.ndarray):
         else:
             self._cliques[idxs] = maxidx
             if len(allidx) > 1:
-                self._cliques[np.in1d(self._cliques, allidx)] = maxidx
+                self._cliques[np.isin(self._cliques, list(allidx - {-1}))] = maxidx
 
     def add(self, other, idx):
         if other.ndim == 2 and self.ndim == 1:
-- 
2.43.0


From ab020f44f4da0069142ee36a2016ff91dbf6f3a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:08 +0000
Subject: [PATCH 16/47] fix: a marginalizing timing model can follow an ECORR
 kernel in a model

---
 enterprise/signals/signal_base.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/enterprise/signals/signal_base.py b/enterprise/signals/signal_base.py
index 7959a4c..cb80c94 100644
--- a/enterprise/signals/signal_base.py
+++ b/enterprise/signals/signal_base.py
@@ -951,6 +951,9 @@ def SignalCollection(metasignals):  # noqa: C901
         @cache_call("white_params")
         def get_ndiag(self, params):
             ndiags = [signal.get_ndiag(params) for signal in self._signals]
+            # a marginalizing timing model wraps the sum of all the other
+            # matrices, which do not know how to add it, so it must come first
+            ndiags = sorted(ndiags, key=lambda ndiag: not hasattr(ndiag, "Mmat"))
             return sum(ndiag for ndiag in ndiags if ndiag is not None)
 
         @cache_call("delay_params")
-- 
2.43.0


From 0bd5e75571cb905eddeaeee15be7878e958293cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:19 +0000
Subject: [PATCH 17/47] fix: columns shared between bases must be located past
 varying bases

---
 enterprise/signals/signal_base.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/enterprise/signals/signal_base.py b/enterprise/signals/signal_base.py
index cb80c94..b969f54 100644
--- a/enterprise/signals/signal_base.py
+++ b/enterprise/signals/signal_base.py
@@ -934,6 +934,10 @@ def SignalCollection(metasignals):  # noqa: C901
                         idx[signal] = list(range(cc, cc + nf))
                         cc += nf
 
+                        # these columns change with the parameters, so nothing may be
+                        # combined with them, but hashlist must count them
+                        hashlist.extend([None] * nf)
+
             if not idx:
                 return {}, None
             else:
-- 
2.43.0


From f437e4aa6e8cd77a4d4d06195c89469f878aeea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:45 +0000
Subject: [PATCH 18/47] fix: equal columns of one basis must not be combined
 with one another

---
 enterprise/signals/signal_base.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/enterprise/signals/signal_base.py b/enterprise/signals/signal_base.py
index b969f54..5a6510a 100644
--- a/enterprise/signals/signal_base.py
+++ b/enterprise/signals/signal_base.py
@@ -915,13 +915,16 @@ def SignalCollection(metasignals):  # noqa: C901
                         for i, column in enumerate(Fmat.T):
                             colhash = hash(column.tobytes())
 
-                            if signal.basis_combine and colhash in hashlist:
+                            # equal columns of one signal have independent coefficients,
+                            # so they cannot be combined with one another
+                            js = [j for j, h in enumerate(hashlist) if h == colhash and j not in idx[signal]]
+
+                            if signal.basis_combine and js:
                                 # if we're combining the basis for this signal
                                 # and we have seen this column already, make a note
                                 # of where it was
 
-                                j = hashlist.index(colhash)
-                                idx[signal].append(j)
+                                idx[signal].append(js[0])
                             else:
                                 # if we're not combining or we haven't seen it already
                                 # save the hash and make a note it's new
-- 
2.43.0


From d71d720ff4a6aab87525c0d02231e7d877469ab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:59 +0000
Subject: [PATCH 19/47] fix: an interrupt between the creation of cache and
 cache list must be harmless

---
 enterprise/signals/signal_base.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/enterprise/signals/signal_base.py b/enterprise/signals/signal_base.py
index 5a6510a..54459fb 100644
--- a/enterprise/signals/signal_base.py
+++ b/enterprise/signals/signal_base.py
@@ -1073,8 +1073,9 @@ def cache_call(attrs, limit=2):
                 msg = "Create cache {} for signal {}".format(func.__name__, self.__class__)
                 logger.debug(msg)
 
-                setattr(self, "_cache_" + func.__name__, {})
+                # in this order, since _cache_ marks that both have been created
                 setattr(self, "_cache_list_" + func.__name__, [])
+                setattr(self, "_cache_" + func.__name__, {})
 
             cache = getattr(self, "_cache_" + func.__name__)
             cache_list = getattr(self, "_cache_list_" + func.__name__)
-- 
2.43.0


From 7f984dee7a399a3d7bdfe1992bba1c9a6410c26a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:39 +0000
Subject: [PATCH 20/47] fix: room in a cache must be made such that an
 interrupt leaves no stale entry

---
 enterprise/signals/signal_base.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/enterprise/signals/signal_base.py b/enterprise/signals/signal_base.py
index 54459fb..392d0c1 100644
--- a/enterprise/signals/signal_base.py
+++ b/enterprise/signals/signal_base.py
@@ -1088,7 +1088,10 @@ def cache_call(attrs, limit=2):
                 # survive that its (possible) side effects have invalidated, and
                 # a key is recorded only once its value is available
                 while len(cache_list) >= limit:
-                    _ = cache.pop(cache_list.pop(0), None)  # noqa: F841
+                    # the list is the last to change, so that it always has
+                    # all the keys in cache
+                    cache.pop(cache_list[0], None)
+                    del cache_list[0]
 
                 value = func(self, params)
 
-- 
2.43.0


From 2df44eb8f9198e9c7e78a41183030dfeda047eeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:35 +0000
Subject: [PATCH 21/47] fix: par files must be found when directories are
 symbolic links

---
 enterprise/pulsar.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/enterprise/pulsar.py b/enterprise/pulsar.py
index 65fcf94..e3c436f 100644
--- a/enterprise/pulsar.py
+++ b/enterprise/pulsar.py
@@ -837,7 +837,10 @@ def Pulsar(*args, **kwargs):
         timfiletup = os.path.split(timfile[0])
         dirname = timfiletup[0] or "./"
         reltimfile = timfiletup[-1]
-        relparfile = os.path.relpath(parfile[0], dirname)
+        # ".." leaves the physical directory, so that symbolic links must be resolved (but not that of the file)
+        parfiletup = os.path.split(parfile[0])
+        relpardir = os.path.relpath(os.path.realpath(parfiletup[0]), os.path.realpath(dirname))
+        relparfile = os.path.normpath(os.path.join(relpardir, parfiletup[-1]))
 
         if timing_package is None:
             if t2 is not None:
-- 
2.43.0


From 942db66237c09da2f95fbc33713e03e326a403e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:07 +0000
Subject: [PATCH 22/47] fix: signals whose selection is empty for a pulsar must
 have no effect

---
 enterprise/signals/gp_signals.py    | 3 ++-
 enterprise/signals/signal_base.py   | 2 +-
 enterprise/signals/white_signals.py | 4 ++++
 3 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/enterprise/signals/gp_signals.py b/enterprise/signals/gp_signals.py
index ee1b550..ef7ff43 100644
--- a/enterprise/signals/gp_signals.py
+++ b/enterprise/signals/gp_signals.py
@@ -41,6 +41,7 @@ def BasisGP(
         def __init__(self, psr):
             super(BasisGP, self).__init__(psr)
             self.name = self.psrname + "_" + self.signal_id
+            self._ntoas = len(psr.toas)
             self._do_selection(psr, priorFunction, basisFunction, coefficients, selection)
 
         def _do_selection(self, psr, priorfn, basisfn, coefficients, selection):
@@ -100,7 +101,7 @@ def BasisGP(
                 basis[key], self._labels[key] = self._bases[key](params=params, mask=mask)
 
             nc = sum(F.shape[1] for F in basis.values())
-            self._basis = np.zeros((len(self._masks[0]), nc))
+            self._basis = np.zeros((self._ntoas, nc))
 
             # TODO: should this be defined here? it will cache phi
             self._phi = KernelMatrix(nc)
diff --git a/enterprise/signals/signal_base.py b/enterprise/signals/signal_base.py
index 392d0c1..672f3df 100644
--- a/enterprise/signals/signal_base.py
+++ b/enterprise/signals/signal_base.py
@@ -945,7 +945,7 @@ def SignalCollection(metasignals):  # noqa: C901
                 return {}, None
             else:
                 ncol = len(np.unique(sum(idx.values(), [])))
-                return ({key: np.array(idx[key]) for key in idx.keys()}, np.zeros((nrow, ncol)))
+                return ({key: np.array(idx[key], dtype=int) for key in idx.keys()}, np.zeros((nrow, ncol)))
 
         # goofy way to cache _idx
         def __getattr__(self, par):
diff --git a/enterprise/signals/white_signals.py b/enterprise/signals/white_signals.py
index b7aa370..61e2f99 100644
--- a/enterprise/signals/white_signals.py
+++ b/enterprise/signals/white_signals.py
@@ -57,6 +57,10 @@ def WhiteNoise(varianceFunction, selection=Selection(selections.no_selection), n
 
         @signal_base.cache_call("ndiag_params")
         def get_ndiag(self, params):
+            if not self._keys:
+                # nothing selected in this pulsar
+                return None
+
             ret = 0
             for key, mask in zip(self._keys, self._masks):
                 ret += self._ndiag[key](params=params) * mask
-- 
2.43.0


From 382a98dff051dc82e1d7ad5fee94555bb69567a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:53 +0000
Subject: [PATCH 23/47] fix: backend flags made of fe and be must not be cut
 short

---
 enterprise/pulsar.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/enterprise/pulsar.py b/enterprise/pulsar.py
index e3c436f..a5fed87 100644
--- a/enterprise/pulsar.py
+++ b/enterprise/pulsar.py
@@ -286,18 +286,19 @@ class BasePulsar(object):
         # collect flag names
         flagnames = self._flags.dtype.names if isinstance(self._flags, np.ndarray) else list(self._flags.keys())
 
-        # allocate array with widest dtype
-        ret = np.zeros(len(self._toas), dtype=max([self._flags[name].dtype for name in flagnames]))
+        # start without flags (np.where makes room for what it is given, so that no flag is cut short)
+        ret = np.full(len(self._toas), "")
 
         # go through the flags in reverse order of preference
         # setting or replacing values for each TOA
 
         if "fe" in flagnames and "be" in flagnames:
-            ret[:] = [(a + "_" + b if (a and b) else "") for a, b in zip(self._flags["fe"], self._flags["be"])]
+            fe_be = [(a + "_" + b if (a and b) else "") for a, b in zip(self._flags["fe"], self._flags["be"])]
+            ret = np.array(fe_be, dtype=str)
 
         for flag in ["f", "i", "sys", "g", "group"]:
             if flag in flagnames:
-                ret[:] = np.where(self._flags[flag] == "", ret, self._flags[flag])
+                ret = np.where(self._flags[flag] == "", ret, self._flags[flag])
 
         return ret[self._isort]
 
-- 
2.43.0


From 0a43fe16907db4197fb4b804d62cb5a1e123d924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:21 +0000
Subject: [PATCH 24/47] fix: filtering a deflated pulsar must not leave it half
 filtered

---
 enterprise/pulsar.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/enterprise/pulsar.py b/enterprise/pulsar.py
index a5fed87..c7cfa7c 100644
--- a/enterprise/pulsar.py
+++ b/enterprise/pulsar.py
@@ -143,6 +143,9 @@ class BasePulsar(object):
         if end_time is not None:
             mask = np.logical_and(mask, self._toas <= end_time * 86400)
 
+        # the data of deflated pulsars cannot be selected: fail before anything has changed
+        designmatrix = self._designmatrix[mask, :]
+
         self._toas = self._toas[mask]
         self._stoas = self._stoas[mask]
         self._toaerrs = self._toaerrs[mask]
@@ -151,7 +154,7 @@ class BasePulsar(object):
         self._telescope = self._telescope[mask]
 
         # drop the fit parameters that have no effect on the remaining data
-        self._designmatrix = self._designmatrix[mask, :]
+        self._designmatrix = designmatrix
         dmx_mask = np.any(self._designmatrix != 0.0, axis=0)
         self._designmatrix = self._designmatrix[:, dmx_mask]
         dropped = [par for par, keep in zip(self.fitpars, dmx_mask) if not keep]
-- 
2.43.0


From 624322867e87cc5352d2b659d1a75809a52c6b21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:17 +0000
Subject: [PATCH 25/47] fix: errors closing a feather file must be reported

---
 enterprise/pulsar.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/enterprise/pulsar.py b/enterprise/pulsar.py
index c7cfa7c..7f1c5a4 100644
--- a/enterprise/pulsar.py
+++ b/enterprise/pulsar.py
@@ -795,7 +795,10 @@ class FeatherPulsar:
             # only keep noisedict entries that are for this pulsar (requires pulsar name to be first part of the key!)
             meta["noisedict"] = {par: val for par, val in noisedict.items() if par.startswith(self.name)}
 
-        feather.write_feather(Table.from_pydict(pydict, metadata={"json": json.dumps(meta)}), filename)
+        table = Table.from_pydict(pydict, metadata={"json": json.dumps(meta)})
+        # (given a filename, write_feather would ignore errors that show when the file is closed)
+        with open(filename, "wb") as f:
+            feather.write_feather(table, f)
 
 
 def Pulsar(*args, **kwargs):
-- 
2.43.0


From 30d0d00ea521ea845724e9d5fd2354ccd68156a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:08 +0000
Subject: [PATCH 26/47] fix: covariance of coefficient draws when the SVD does
 not converge

---
 enterprise/signals/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/enterprise/signals/utils.py b/enterprise/signals/utils.py
index e4fbabd..f991804 100644
--- a/enterprise/signals/utils.py
+++ b/enterprise/signals/utils.py
@@ -200,7 +200,7 @@ def get_coefficients(pta, params, n=1, phiinv_method="cliques", variance=True, c
                 Sigi = sl.solve(R, Q.T)
                 mn = np.dot(Sigi, d)
                 u, s, _ = sl.svd(Sigi)
-                Li = u * np.sqrt(1 / s)
+                Li = u * np.sqrt(s)
 
             for j in range(n):
                 b = mn + (np.dot(Li, np.random.randn(Li.shape[0])) if variance else 0)
-- 
2.43.0


From 02aff540373c8516fe07df5856070fbb99620973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:09 +0000
Subject: [PATCH 27/47] fix: sparse draws of common coefficients must undo the
 permutation

---
 enterprise/signals/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/enterprise/signals/utils.py b/enterprise/signals/utils.py
index f991804..d5c9787 100644
--- a/enterprise/signals/utils.py
+++ b/enterprise/signals/utils.py
@@ -153,7 +153,8 @@ def get_coefficients(pta, params, n=1, phiinv_method="cliques", variance=True, c
 
             ch = cholesky(Sigma)
             mn = ch(TNr)
-            Li = sps.linalg.inv(ch.L()).toarray().T
+            # undo the fill-reducing permutation of the factorization
+            Li = ch.apply_Pt(sps.linalg.inv(ch.L()).toarray().T)
         else:
             Sigma = sl.block_diag(*TNTs) + phiinvs
             TNr = np.concatenate(TNrs)
-- 
2.43.0


From f5d02bba6fbe6b7dc3b75981e86e85f039d1c552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:09 +0000
Subject: [PATCH 28/47] fix: draw coefficients of common processes seen by a
 single pulsar

---
 enterprise/signals/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/enterprise/signals/utils.py b/enterprise/signals/utils.py
index d5c9787..7ab5c52 100644
--- a/enterprise/signals/utils.py
+++ b/enterprise/signals/utils.py
@@ -208,7 +208,7 @@ def get_coefficients(pta, params, n=1, phiinv_method="cliques", variance=True, c
 
                 pardict, ntot = {}, 0
                 for sig in model._signals:
-                    if sig.signal_type == "basis":
+                    if sig.signal_type in ["basis", "common basis"]:
                         nb = sig.get_basis(params=params).shape[1]
 
                         if nb + ntot > len(b):
-- 
2.43.0


From 1c68d5ac4c67db2f35b7cfed59951541876d8eb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:23 +0000
Subject: [PATCH 29/47] fix: conditional draws with GP coefficients among the
 parameters

---
 enterprise/signals/utils.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/enterprise/signals/utils.py b/enterprise/signals/utils.py
index 7ab5c52..d693ac4 100644
--- a/enterprise/signals/utils.py
+++ b/enterprise/signals/utils.py
@@ -98,6 +98,9 @@ class ConditionalGP:
                         continue
 
                     sb = sig.get_basis(params=params)
+                    if sb is None:
+                        # the coefficients of this GP are parameters
+                        continue
                     nb = sb.shape[1]
 
                     if nb + ntot > len(b):
@@ -170,7 +173,11 @@ def get_coefficients(pta, params, n=1, phiinv_method="cliques", variance=True, c
             for i, model in enumerate(pta.pulsarmodels):
                 for sig in model._signals:
                     if sig.signal_type in ["basis", "common basis"]:
-                        nb = sig.get_basis(params=params).shape[1]
+                        sb = sig.get_basis(params=params)
+                        if sb is None:
+                            # the coefficients of this GP are parameters
+                            continue
+                        nb = sb.shape[1]
 
                         if nb + ntot > len(b):
                             raise IndexError(
@@ -209,7 +216,11 @@ def get_coefficients(pta, params, n=1, phiinv_method="cliques", variance=True, c
                 pardict, ntot = {}, 0
                 for sig in model._signals:
                     if sig.signal_type in ["basis", "common basis"]:
-                        nb = sig.get_basis(params=params).shape[1]
+                        sb = sig.get_basis(params=params)
+                        if sb is None:
+                            # the coefficients of this GP are parameters
+                            continue
+                        nb = sb.shape[1]
 
                         if nb + ntot > len(b):
                             raise IndexError(
-- 
2.43.0


From e15499914cfc3c20bc61933b414895e06d1afa73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:14 +0000
Subject: [PATCH 30/47] fix: rejection in TruncNormalSampler with scalar and
 vector arguments mixed

---
 enterprise/signals/parameter.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/enterprise/signals/parameter.py b/enterprise/signals/parameter.py
index 4058724..076fb10 100644
--- a/enterprise/signals/parameter.py
+++ b/enterprise/signals/parameter.py
@@ -321,11 +321,9 @@ def TruncNormalSampler(mu, sigma, pmin, pmax, norm=None, size=None):
     samp = np.random.normal(mu, sigma, size)
     if isinstance(samp, np.ndarray):
         mask = np.logical_or(samp > pmax, samp < pmin)
+        mu, sigma = np.broadcast_to(mu, samp.shape), np.broadcast_to(sigma, samp.shape)
         while np.any(mask):
-            if isinstance(mu, np.ndarray):
-                samp[mask] = np.random.normal(mu[mask], sigma[mask], size=sum(mask))
-            else:
-                samp[mask] = np.random.normal(mu, sigma, size=sum(mask))
+            samp[mask] = np.random.normal(mu[mask], sigma[mask], size=sum(mask))
             mask = np.logical_or(samp > pmax, samp < pmin)
     else:
         while samp > pmax or samp < pmin:
-- 
2.43.0


From edeeeffe7ec5f554ce91d4870de18d055dd50313 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:14 +0000
Subject: [PATCH 31/47] fix: TruncNormalSampler must not return the bounds,
 which have zero density

---
 enterprise/signals/parameter.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/enterprise/signals/parameter.py b/enterprise/signals/parameter.py
index 076fb10..09ab62f 100644
--- a/enterprise/signals/parameter.py
+++ b/enterprise/signals/parameter.py
@@ -316,17 +316,18 @@ def TruncNormalSampler(mu, sigma, pmin, pmax, norm=None, size=None):
     """Sampling function for TruncNormal parameters.
     Handles scalar mu/sigma/pmin/pmax or compatible vector
     value/mu/sigma/pmin/pmax/.
-    Implements rejection sampling on a normal distribution.
+    Implements rejection sampling on a normal distribution
+    (rejecting also the bounds, where the prior vanishes).
     """
     samp = np.random.normal(mu, sigma, size)
     if isinstance(samp, np.ndarray):
-        mask = np.logical_or(samp > pmax, samp < pmin)
+        mask = np.logical_or(samp >= pmax, samp <= pmin)
         mu, sigma = np.broadcast_to(mu, samp.shape), np.broadcast_to(sigma, samp.shape)
         while np.any(mask):
             samp[mask] = np.random.normal(mu[mask], sigma[mask], size=sum(mask))
-            mask = np.logical_or(samp > pmax, samp < pmin)
+            mask = np.logical_or(samp >= pmax, samp <= pmin)
     else:
-        while samp > pmax or samp < pmin:
+        while samp >= pmax or samp <= pmin:
             samp = np.random.normal(mu, sigma)
     return samp
 
-- 
2.43.0


From c25bd8bb191a6f45ac3701137ef9dce1b4f59f42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:14 +0000
Subject: [PATCH 32/47] fix: LinearExpSampler must stay in its domain

---
 enterprise/signals/parameter.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/enterprise/signals/parameter.py b/enterprise/signals/parameter.py
index 09ab62f..4eb0153 100644
--- a/enterprise/signals/parameter.py
+++ b/enterprise/signals/parameter.py
@@ -383,7 +383,8 @@ def LinearExpSampler(pmin, pmax, size=None):
 
     # works with vectors if pmin and pmax are either scalars
     # or vectors, in which case one must have len(pmin) = len(pmax) = size
-    return np.log10(np.random.uniform(10**pmin, 10**pmax, size))
+    # (rounding errors of the logarithm may lead out of the domain)
+    return np.clip(np.log10(np.random.uniform(10**pmin, 10**pmax, size)), pmin, pmax)
 
 
 def LinearExpPPF(value, pmin, pmax):
-- 
2.43.0


From 685f88041d97ae7d0b65979af49a85755a86a5cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:14 +0000
Subject: [PATCH 33/47] fix: InvGammaSampler must not return zero

---
 enterprise/signals/gp_priors.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/enterprise/signals/gp_priors.py b/enterprise/signals/gp_priors.py
index e515552..9766f46 100644
--- a/enterprise/signals/gp_priors.py
+++ b/enterprise/signals/gp_priors.py
@@ -74,7 +74,11 @@ def InvGammaPrior(value, alpha=1, gamma=1):
 
 def InvGammaSampler(alpha=1, gamma=1, size=None):
     """Sampling function for Uniform parameters."""
-    return scipy.stats.invgamma.rvs(alpha, scale=gamma, size=size)
+    samp = scipy.stats.invgamma.rvs(alpha, scale=gamma, size=size)
+
+    # the quantile of a uniform deviate of exactly zero has zero density,
+    # so use that of the next one
+    return np.maximum(samp, scipy.stats.invgamma.ppf(2.0**-53, alpha, scale=gamma))
 
 
 def InvGamma(alpha=1, gamma=1, size=None):
-- 
2.43.0


From d71fc3c05e46d9726c4671c122f70a6d79d1c2ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:57 +0000
Subject: [PATCH 34/47] fix: interrupted set_default_params left caches that
 were stale or broken

Clear the caches before any constant changes, at all levels, and remove
the dictionary of a cache before its list of keys.
---
 enterprise/signals/signal_base.py | 41 +++++++++++++++++++++----------
 1 file changed, 28 insertions(+), 13 deletions(-)

diff --git a/enterprise/signals/signal_base.py b/enterprise/signals/signal_base.py
index 672f3df..94ee2c1 100644
--- a/enterprise/signals/signal_base.py
+++ b/enterprise/signals/signal_base.py
@@ -65,8 +65,10 @@ def simplememobyid(method):
 def _clear_caches(instance):
     """Forget all the values saved in `instance` by cache_call."""
 
-    for attr in [attr for attr in instance.__dict__ if attr.startswith("_cache_")]:
-        del instance.__dict__[attr]
+    # the lists of keys go last: while the dictionary of a cache is there, so must be its list
+    attrs = [attr for attr in instance.__dict__ if attr.startswith("_cache_")]
+    for attr in sorted(attrs, key=lambda attr: attr.startswith("_cache_list_")):
+        instance.__dict__.pop(attr, None)
 
 
 class MetaSignal(type):
@@ -129,13 +131,15 @@ class Signal(object):
 
     def set_default_params(self, params):
         """Set default parameters."""
+        # the cache keys include only the varying parameters; clear the caches
+        # before any change, in case this is interrupted
+        _clear_caches(self)
+
         for kw, par in self._params.items():
             if par.name in params and isinstance(par, ConstantParameter):
                 msg = "Setting {} to {}".format(par.name, params[par.name])
                 logger.info(msg)
                 self._params[kw].value = params[par.name]
-                # the cache keys include only the varying parameters
-                _clear_caches(self)
             elif par.name not in params and isinstance(par, ConstantParameter):
                 if par.value is None:
                     msg = "{} not set! Check parameter dict.".format(par.name)
@@ -372,11 +376,15 @@ class PTA(object):
         return [signalcollection.get_logsignalprior(params) for signalcollection in self._signalcollections]
 
     def set_default_params(self, params):
+        # drop the analyzed Cholesky factor, since the bases may change
+        self.__dict__.pop("_lnlike", None)
+
+        # before any change, since parameters may be shared among pulsars
         for sc in self._signalcollections:
-            sc.set_default_params(params)
+            sc._clear_all_caches()
 
-        # drop the analyzed Cholesky factor, since the bases may have changed
-        self.__dict__.pop("_lnlike", None)
+        for sc in self._signalcollections:
+            sc.set_default_params(params)
 
     def get_basis(self, params={}):
         return [signalcollection.get_basis(params) for signalcollection in self._signalcollections]
@@ -882,16 +890,23 @@ def SignalCollection(metasignals):  # noqa: C901
 
         # set default parameters
 
-        def set_default_params(self, params):
-            for signal in self._signals:
-                signal.set_default_params(params)
+        def _clear_all_caches(self):
+            """Forget everything that depends on the constant parameters of
+            the signals, since these do not appear in the cache keys."""
+            for instance in [self] + self._signals:
+                _clear_caches(instance)
 
-            # the constant parameters of the signals may have changed, but
-            # they do not appear in the cache keys; also redo _idx and _Fmat
-            _clear_caches(self)
+            # also redo _idx and _Fmat
             for attr in ("_idx", "_Fmat"):
                 self.__dict__.pop(attr, None)
 
+        def set_default_params(self, params):
+            # before any change, in case this is interrupted
+            self._clear_all_caches()
+
+            for signal in self._signals:
+                signal.set_default_params(params)
+
         def _combine_basis_columns(self, signals):
             """Given a set of Signal objects, each of which may return an
             Fmat (through get_basis()), return a dict (indexed by signal)
-- 
2.43.0


From 1a2f843a956725b0ebc18086206f27c2d1233949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:23 +0000
Subject: [PATCH 35/47] fix: nested functions must not share one namespace for
 their keywords

---
 enterprise/signals/parameter.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/enterprise/signals/parameter.py b/enterprise/signals/parameter.py
index 4eb0153..933d0d2 100644
--- a/enterprise/signals/parameter.py
+++ b/enterprise/signals/parameter.py
@@ -453,6 +453,13 @@ class FunctionBase(object):
     pass
 
 
+def _qualify(kw, params):
+    """Keys for the parameters of the function given as keyword `kw`, which
+    may have the same keywords as other functions or their parameters."""
+
+    return {"{}.{}".format(kw, key): par for key, par in params.items()}
+
+
 def Function(func, name="", **func_kwargs):
     fname = name
 
@@ -502,10 +509,10 @@ def Function(func, name="", **func_kwargs):
                     parfunc = arg("_".join([n for n in pnames if n]), psr)
 
                     self._funcs[kw] = parfunc
-                    self._params.update(parfunc._params)
+                    self._params.update(_qualify(kw, parfunc._params))
                 elif isinstance(arg, FunctionBase):
                     self._funcs[kw] = arg
-                    self._params.update(arg._params)
+                    self._params.update(_qualify(kw, arg._params))
                 else:
                     self._defaults[kw] = arg
 
-- 
2.43.0


From f3f77bacade373b49fdf9fb07ee4151fa21d6e93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:23 +0000
Subject: [PATCH 36/47] fix: delays of common processes must depend on
 coefficients of any name

---
 enterprise/signals/gp_signals.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/enterprise/signals/gp_signals.py b/enterprise/signals/gp_signals.py
index ef7ff43..a809a21 100644
--- a/enterprise/signals/gp_signals.py
+++ b/enterprise/signals/gp_signals.py
@@ -360,7 +360,7 @@ def BasisCommonGP(priorFunction, basisFunction, orfFunction, coefficients=False,
             @property
             def delay_params(self):
                 # the delay depends also on any varying basis parameters
-                return [pp.name for pp in self.params if "_coefficients" in pp.name] + self.basis_params
+                return [par.name for par in self._coefficients.values()] + self.basis_params
 
             @signal_base.cache_call(["basis_params", "delay_params"])
             def get_delay(self, params={}):
-- 
2.43.0


From 7ef1a76ea6fb5de26c436b7535743f8c766f8069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:50 +0000
Subject: [PATCH 37/47] fix: summary() of models with coefficients or with
 selections that match nothing

---
 enterprise/signals/signal_base.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/enterprise/signals/signal_base.py b/enterprise/signals/signal_base.py
index 94ee2c1..8262733 100644
--- a/enterprise/signals/signal_base.py
+++ b/enterprise/signals/signal_base.py
@@ -771,8 +771,13 @@ class PTA(object):
                 row = [sig.name, sig.__class__.__name__, len(sig.param_names)]
                 summary += "{: <40} {: <30} {: <20}\n".format(*row)
                 if "BasisGP" in sig.__class__.__name__:
-                    summary += "\nBasis shape (Ntoas x N basis functions): {}".format(str(sig.get_basis().shape))
-                    summary += "\nN selected toas: {}\n".format(str(len([i for i in sig._masks[0] if i])))
+                    # there is no basis if the coefficients are parameters, and
+                    # no mask if no TOAs are selected
+                    basis = sig.get_basis()
+                    if basis is not None:
+                        summary += "\nBasis shape (Ntoas x N basis functions): {}".format(str(basis.shape))
+                    ntoas = sum(np.count_nonzero(mask) for mask in sig._masks)
+                    summary += "\nN selected toas: {}\n".format(ntoas)
                 if include_params:
                     summary += "\n"
                     summary += "params:\n"
-- 
2.43.0


From 4de121344a1b18380aea2de7394f81c0ae0dd5ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:51 +0000
Subject: [PATCH 38/47] fix: hypercube transform of parameters with
 hyperparameters

---
 enterprise/signals/signal_base.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/enterprise/signals/signal_base.py b/enterprise/signals/signal_base.py
index 8262733..ec1aa54 100644
--- a/enterprise/signals/signal_base.py
+++ b/enterprise/signals/signal_base.py
@@ -716,7 +716,20 @@ class PTA(object):
         # map parameter vector if needed
         params = params if isinstance(params, dict) else self.map_params(params)
 
-        return np.hstack([p.get_ppf(params=params) for p in self.params])
+        # the PPF of a parameter needs the values of its hyperparameters, not
+        # their positions in the unit cube, so these are transformed first
+        values = {}
+
+        def transform(par):
+            if par.name not in values:
+                for hyperpar in par.params[1:]:
+                    transform(hyperpar)
+
+                values[par.name] = par.get_ppf(params[par.name], params=values)
+
+            return values[par.name]
+
+        return np.hstack([transform(p) for p in self.params])
 
     def _set_signal_dict(self):
         """Set signal dictionary"""
-- 
2.43.0


From 511bd8e7376279ac0db4335a0c0dc7d4f7bdd513 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:29 +0000
Subject: [PATCH 39/47] fix: analytical decompositions must not be reused for
 other patterns of nonzeros

The likelihood of models with common signals kept the symbolic Cholesky
decomposition of the first evaluation.  If the matrix gains nonzeros later
(for instance with a correlation parameter that was exactly zero at first),
the supernodal update silently gives wrong values.
---
 enterprise/signals/signal_base.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/enterprise/signals/signal_base.py b/enterprise/signals/signal_base.py
index ec1aa54..59a7c2c 100644
--- a/enterprise/signals/signal_base.py
+++ b/enterprise/signals/signal_base.py
@@ -236,12 +236,18 @@ class LogLikelihood(object):
                 try:
                     Sigma_sp = TNT + sps.csc_matrix(phiinv)
 
-                    if hasattr(self, "cf_sp"):
+                    # (the analytical decomposition is for one pattern of nonzeros only)
+                    nonzeros = (Sigma_sp.indptr, Sigma_sp.indices)
+                    known = getattr(self, "_nonzeros", None)
+
+                    if known and all(np.array_equal(old, new) for old, new in zip(known, nonzeros)):
                         # Have analytical decomposition already. Just do update
                         self.cf_sp.cholesky_inplace(Sigma_sp)
                     else:
                         # Do analytical and numerical Sparse Cholesky
+                        self._nonzeros = None
                         self.cf_sp = cholesky(Sigma_sp)
+                        self._nonzeros = nonzeros
 
                     expval = self.cf_sp(TNr)
                     logdet_sigma = self.cf_sp.logdet()
-- 
2.43.0


From 2aa69004cd33b99648d397eaf3cdc598700938be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:14 +0000
Subject: [PATCH 40/47] fix: likelihood of models with common signals and
 pulsars without Gaussian processes

---
 enterprise/signals/signal_base.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/enterprise/signals/signal_base.py b/enterprise/signals/signal_base.py
index 59a7c2c..ac70bd8 100644
--- a/enterprise/signals/signal_base.py
+++ b/enterprise/signals/signal_base.py
@@ -197,6 +197,8 @@ class LogLikelihood(object):
 
     @simplememobyid
     def _block_TNT(self, TNTs):
+        # (pulsars without Gaussian processes have none)
+        TNTs = [TNT for TNT in TNTs if TNT is not None]
         if self.cholesky_sparse:
             return sps.block_diag(TNTs, "csc")
         else:
@@ -204,7 +206,7 @@ class LogLikelihood(object):
 
     @simplememobyid
     def _block_TNr(self, TNrs):
-        return np.concatenate(TNrs)
+        return np.concatenate([TNr for TNr in TNrs if TNr is not None])
 
     def __call__(self, xs, phiinv_method="cliques"):
         # map parameter vector if needed
-- 
2.43.0


From 36536d4123c244581af5a2c6e3320de65a5289bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:35 +0000
Subject: [PATCH 41/47] fix: draws of coefficients for models with pulsars
 without Gaussian processes

---
 enterprise/signals/utils.py | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/enterprise/signals/utils.py b/enterprise/signals/utils.py
index d693ac4..43151e0 100644
--- a/enterprise/signals/utils.py
+++ b/enterprise/signals/utils.py
@@ -52,6 +52,12 @@ class ConditionalGP:
         TNTs = self.pta.get_TNT(params)
         phiinvs = self.pta.get_phiinv(params, logdet=False, method=self.phiinv_method)
 
+        # pulsars without Gaussian processes have no coefficients
+        TNrs = [TNr for TNr in TNrs if TNr is not None]
+        TNTs = [TNT for TNT in TNTs if TNT is not None]
+        if not self.pta._commonsignals:
+            phiinvs = [phiinv for phiinv in phiinvs if phiinv is not None]
+
         # TO DO: all this could be more efficient
         #        also it's unclear if it works with MarginalizingTimingModel
         if self.pta._commonsignals:
@@ -85,8 +91,8 @@ class ConditionalGP:
                 if variance:
                     b = b + ch.apply_Pt(ch.solve_Lt(np.random.randn(mn.shape[0]), use_LDLt_decomposition=False))
             else:
-                b = np.concatenate(mn)
-                if variance:
+                b = np.concatenate(mn) if mn else np.zeros(0)
+                if variance and ch:
                     b = b + np.concatenate(
                         [sl.solve_triangular(c.T, np.random.randn(c.shape[0]), lower=False) for c in ch]
                     )
@@ -150,6 +156,10 @@ def get_coefficients(pta, params, n=1, phiinv_method="cliques", variance=True, c
 
     # ...repeated code in the two if branches... refactor at will!
     if pta._commonsignals:
+        # pulsars without Gaussian processes have no coefficients
+        TNrs = [TNr for TNr in TNrs if TNr is not None]
+        TNTs = [TNT for TNT in TNTs if TNT is not None]
+
         if common_sparse:
             Sigma = sps.block_diag(TNTs, "csc") + sps.csc_matrix(phiinvs)
             TNr = np.concatenate(TNrs)
@@ -197,6 +207,11 @@ def get_coefficients(pta, params, n=1, phiinv_method="cliques", variance=True, c
         for i, model in enumerate(pta.pulsarmodels):
             phiinv, d, TNT = phiinvs[i], TNrs[i], TNTs[i]
 
+            if TNT is None:
+                # pulsars without Gaussian processes have no coefficients
+                ret.extend(params.copy() for j in range(len(ret), n))
+                continue
+
             Sigma = TNT + (np.diag(phiinv) if phiinv.ndim == 1 else phiinv)
 
             try:
-- 
2.43.0


From 2783871f716912fa4fad917cd0d3ce390e2bdb7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:48 +0000
Subject: [PATCH 42/47] fix: shapes of products with one column for block ECORR
 kernels

---
 enterprise/signals/signal_base.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/enterprise/signals/signal_base.py b/enterprise/signals/signal_base.py
index ac70bd8..3aa921d 100644
--- a/enterprise/signals/signal_base.py
+++ b/enterprise/signals/signal_base.py
@@ -1239,6 +1239,8 @@ class BlockMatrix(object):
         """Solves :math:`Z^T N^{-1}X`, where :math:`X`
         and :math:`Z` are 1-d or 2-d arrays.
         """
+        # (a vector has no index in the product)
+        index = (0 if Z.ndim == 1 else slice(None), 0 if X.ndim == 1 else slice(None))
         if X.ndim == 1:
             X = X.reshape(X.shape[0], 1)
         if Z.ndim == 1:
@@ -1261,12 +1263,13 @@ class BlockMatrix(object):
                 bx = Xblock / self._nvec[idx][:, None]
             ZNX += np.dot(Zblock.T, bx)
         ZNX += ZNXr
-        return ZNX.squeeze() if len(ZNX) > 1 else float(ZNX)
+        return ZNX[index]
 
     def _solve_NX(self, X):
         """Solves :math:`N^{-1}X`, where :math:`X`
         is a 1-d or 2-d array.
         """
+        shape = X.shape
         if X.ndim == 1:
             X = X.reshape(X.shape[0], 1)
 
@@ -1276,7 +1279,7 @@ class BlockMatrix(object):
             if len(idx) > 1:
                 cf = sl.cho_factor(block + np.diag(self._nvec[idx]))
                 NX[idx] = sl.cho_solve(cf, Xblock)
-        return NX.squeeze()
+        return NX.reshape(shape)
 
     def _get_logdet(self):
         """Returns log determinant of :math:`N+UJU^{T}` where :math:`U`
-- 
2.43.0


From f954da3565f14d5a80ba4792e0b9940ec676cc04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:35 +0000
Subject: [PATCH 43/47] fix: inversion of phi by frequency for several common
 processes or dense covariances

---
 enterprise/signals/signal_base.py | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/enterprise/signals/signal_base.py b/enterprise/signals/signal_base.py
index 3aa921d..ac64e59 100644
--- a/enterprise/signals/signal_base.py
+++ b/enterprise/signals/signal_base.py
@@ -466,18 +466,33 @@ class PTA(object):
             else:
                 return cf.inv()
 
+    # can phi be inverted frequency by frequency? Only if all common signals
+    # are shared among the same pulsars, share the same columns, and
+    # no other signal correlates these
+    def _is_partitioned(self, phivecs):
+        columns = [[(csc, list(csc._idx[cs])) for cs, csc in cs.items()] for cs in self._commonsignals.values()]
+        phis = dict(zip(self._signalcollections, phivecs))
+
+        return all(cols == columns[0] for cols in columns) and all(
+            phis[csc].ndim == 1 or np.count_nonzero(phis[csc][idx]) == np.count_nonzero(np.diag(phis[csc])[idx])
+            for csc, idx in columns[0]
+        )
+
     def get_phiinv_byfreq_partition(self, params, logdet=False):
         phivecs = [signalcollection.get_phi(params) for signalcollection in self._signalcollections]
 
         # if we found common signals, we'll return a big phivec matrix,
         # otherwise a list of phivec vectors (some of which possibly None)
         if self._commonsignals:
+            if not self._is_partitioned(phivecs):
+                return self.get_phiinv_byfreq_cliques(params, logdet)
+
             slices = self._get_slices(phivecs)
 
             # TODO: This is messy, maybe we should clean up
             phis = [phivec for phivec in phivecs if phivec is not None]
             if np.any([phivec.ndim == 2 for phivec in phis]):
-                phiinvs = [phivec.inv(logdet) for phivec in phis]
+                phiinvs = [phivec.inv(logdet=True) for phivec in phis]
                 phiinv_full = [np.diag(phi[0]) if phi[0].ndim == 1 else phi[0] for phi in phiinvs]
                 phiinv = sl.block_diag(*phiinv_full)
                 if logdet:
@@ -513,10 +528,12 @@ class PTA(object):
                         invert[:, i, j] += crossdiag
                         invert[:, j, i] += crossdiag
 
-                    invert[:, i, i] += phidiag[slices[csc1]][csc1._idx[cs1]]
+            # the diagonal of phi is the sum of all signals already
+            for i, (cs1, csc1) in enumerate(csdict.items()):
+                invert[:, i, i] += phidiag[slices[csc1]][csc1._idx[cs1]]
 
-                    if logdet:
-                        ld -= np.sum(np.log(phidiag[slices[csc1]][csc1._idx[cs1]]))
+                if logdet:
+                    ld -= np.sum(np.log(phidiag[slices[csc1]][csc1._idx[cs1]]))
 
             for k in range(len(crossdiag)):
                 cf = sl.cho_factor(invert[k, :, :])
-- 
2.43.0


From 0fc0d0153877ee09033810d5575c06f254fcd320 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:14 +0000
Subject: [PATCH 44/47] fix: epochs of the physical ephemeris for pulsars whose
 TOAs are not sorted

---
 enterprise/signals/deterministic_signals.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/enterprise/signals/deterministic_signals.py b/enterprise/signals/deterministic_signals.py
index b7eb91a..646fc51 100644
--- a/enterprise/signals/deterministic_signals.py
+++ b/enterprise/signals/deterministic_signals.py
@@ -179,15 +179,18 @@ def PhysicalEphemerisSignal(
                 self._avetoas = avetoas
 
                 # interpolate ssb planet position vectors to avetoas
+                # (from TOAs in order of time)
+                isort = np.argsort(psr.toas, kind="mergesort")
+                toas = psr.toas[isort]
                 planetssb = np.zeros((len(avetoas), 9, 3))
                 for jj in range(9):
                     planetssb[:, jj, :] = np.array(
-                        [np.interp(avetoas, psr.toas, psr.planetssb[:, jj, aa]) for aa in range(3)]
+                        [np.interp(avetoas, toas, psr.planetssb[isort, jj, aa]) for aa in range(3)]
                     ).T
                 self._planetssb = planetssb
 
                 # Interpolating the pulsar position vectors onto epoch TOAs
-                pos_t = np.array([np.interp(avetoas, psr.toas, psr.pos_t[:, aa]) for aa in range(3)]).T
+                pos_t = np.array([np.interp(avetoas, toas, psr.pos_t[isort, aa]) for aa in range(3)]).T
                 self._pos_t = pos_t
 
             # initialize delay
-- 
2.43.0


From 872af76038408d48d2fb26898bf3668bab897bf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:17 +0000
Subject: [PATCH 45/47] fix: the phi of a GP signal is overwritten by later
 requests

---
 enterprise/signals/gp_signals.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/enterprise/signals/gp_signals.py b/enterprise/signals/gp_signals.py
index a809a21..c41f0b1 100644
--- a/enterprise/signals/gp_signals.py
+++ b/enterprise/signals/gp_signals.py
@@ -103,9 +103,6 @@ def BasisGP(
             nc = sum(F.shape[1] for F in basis.values())
             self._basis = np.zeros((self._ntoas, nc))
 
-            # TODO: should this be defined here? it will cache phi
-            self._phi = KernelMatrix(nc)
-
             self._slices = {}
             nctot = 0
             for key, mask in zip(self._keys, self._masks):
@@ -176,10 +173,12 @@ def BasisGP(
             def get_phi(self, params):
                 self._construct_basis(params)
 
+                # (a new matrix every time: those handed out already must not change)
+                phi = KernelMatrix(self._basis.shape[1])
                 for key, slc in self._slices.items():
                     phislc = self._prior[key](self._labels[key], params=params)
-                    self._phi = self._phi.set(phislc, slc)
-                return self._phi
+                    phi = phi.set(phislc, slc)
+                return phi
 
             def get_phiinv(self, params):
                 return self.get_phi(params).inv()
-- 
2.43.0


From 9daad5ac9baa083612ff9291f4405eb262f0fa6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:20 +0000
Subject: [PATCH 46/47] fix: tim files with commented or lower-case includes,
 and observations named C... or INCLUDE...

---
 enterprise/pulsar.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/enterprise/pulsar.py b/enterprise/pulsar.py
index 7f1c5a4..b5fa80d 100644
--- a/enterprise/pulsar.py
+++ b/enterprise/pulsar.py
@@ -58,12 +58,13 @@ def get_maxobs(timfile):
 
     maxobs = 0
     with open(timfile) as tfile:
-        flines = tfile.readlines()
-        lines = [ln for ln in flines if not ln.startswith("C")]
-        for line in lines:
-            if "INCLUDE" in line:
-                maxobs += get_maxobs(line.split()[-1])
-            elif line.rstrip("\n"):
+        for line in tfile:
+            words = line.split()
+            if not words or words[0] in ("C", "CC") or words[0].startswith("#"):
+                continue  # an empty line or a comment
+            elif words[0].upper() == "INCLUDE":
+                maxobs += get_maxobs(words[1])
+            else:
                 maxobs += 1
     return maxobs
 
-- 
2.43.0


From ac9414e4c32ed469842c46d8708a605c714bfc6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:28 +0000
Subject: [PATCH 47/47] fix: kernel ECORR in pulsars without repeated
 observations

---
 enterprise/signals/white_signals.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/enterprise/signals/white_signals.py b/enterprise/signals/white_signals.py
index 61e2f99..79c04e2 100644
--- a/enterprise/signals/white_signals.py
+++ b/enterprise/signals/white_signals.py
@@ -243,6 +243,10 @@ def EcorrKernelNoise(
 
         @signal_base.cache_call("ndiag_params")
         def get_ndiag(self, params):
+            if not any(self._idxs.values()):
+                # no epochs with several observations in this pulsar
+                return None
+
             if method == "sherman-morrison":
                 return self._get_ndiag_sherman_morrison(params)
             elif method == "fast-sherman-morrison":
-- 
2.43.0

