From d6ddbc2a7f172e6fcab743c182f716a97fac8711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:18 +0000
Subject: [PATCH 01/34] fix: observing a target no longer leaves a 'sky TR'
 column in the shared channel tables

The column leaked into the results of every target observed later with the
same channels, so results depended on the target position in the list and on
the number of workers.
---
 exorad/models/instruments/instrument.py   | 16 ++++++++++++----
 exorad/models/instruments/photometer.py   |  7 +++++--
 exorad/models/instruments/spectrometer.py |  7 +++++--
 3 files changed, 22 insertions(+), 8 deletions(-)

diff --git a/exorad/models/instruments/instrument.py b/exorad/models/instruments/instrument.py
index 1ca745d..d103aa0 100644
--- a/exorad/models/instruments/instrument.py
+++ b/exorad/models/instruments/instrument.py
@@ -340,6 +340,17 @@ class Instrument(Logger):
         self.debug("qe in channel : {}".format(qe))
         return qe, qe_data
 
+    def _get_foreground_transmission(self, target):
+        """
+        returns the foreground transmission binned on the instrument table
+        and the (copied) foreground transmission signal
+        """
+        sky_transmission = copy.deepcopy(target.skyTransmission)
+        binned_transmission, _ = self._get_transmission(
+            sky_transmission.wl_grid, sky_transmission.data
+        )
+        return binned_transmission, sky_transmission
+
     def _get_efficiency(self, wl, target):
         # qe = interp1d(wl, self.built_instr['qe_data']['wl_grid'],
         #               self.built_instr['qe_data']['data'], left=0.0, right=0.0)
@@ -361,10 +372,7 @@ class Instrument(Logger):
         transmission.spectral_rebin(wl)
 
         if hasattr(target, "skyTransmission"):
-            target_transmission = copy.deepcopy(target.skyTransmission)
-            self.table["sky TR"], _ = self._get_transmission(
-                target_transmission.wl_grid, target_transmission.data
-            )
+            _, target_transmission = self._get_foreground_transmission(target)
             target_transmission.spectral_rebin(wl)
             transmission.data *= target_transmission.data
 
diff --git a/exorad/models/instruments/photometer.py b/exorad/models/instruments/photometer.py
index 4bdc5f2..7af55a6 100644
--- a/exorad/models/instruments/photometer.py
+++ b/exorad/models/instruments/photometer.py
@@ -135,8 +135,11 @@ class Photometer(Instrument):
         out = QTable()
         wl = target.star.sed.wl_grid
         qe, transmission, wave_window = self._get_efficiency(wl, target)
-        if "sky TR" in self.table.keys():
-            out["foreground_transmission"] = self.table["sky TR"]
+        if hasattr(target, "skyTransmission"):
+            (
+                out["foreground_transmission"],
+                _,
+            ) = self._get_foreground_transmission(target)
 
         if self.payload["optics"]["ForceChannelWlEdge"]["value"]:
             self.debug("force channel wl edge enabled")
diff --git a/exorad/models/instruments/spectrometer.py b/exorad/models/instruments/spectrometer.py
index f57e861..25b42fa 100644
--- a/exorad/models/instruments/spectrometer.py
+++ b/exorad/models/instruments/spectrometer.py
@@ -327,8 +327,11 @@ class Spectrometer(Instrument):
         out = QTable()
         wl = target.star.sed.wl_grid
         qe, transmission, wave_window = self._get_efficiency(wl, target)
-        if "sky TR" in self.table.keys():
-            out["foreground_transmission"] = self.table["sky TR"]
+        if hasattr(target, "skyTransmission"):
+            (
+                out["foreground_transmission"],
+                _,
+            ) = self._get_foreground_transmission(target)
         if self.payload["optics"]["ForceChannelWlEdge"]["value"]:
             self.debug("force channel wl edge enabled")
             idx = np.logical_or(
-- 
2.43.0


From df23f467023d0c2ab745a216a0948426905d1c4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:38 +0000
Subject: [PATCH 02/34] fix: re-estimating the foregrounds of a target no
 longer applies their transmission twice

---
 exorad/tasks/foregroundHandler.py | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/exorad/tasks/foregroundHandler.py b/exorad/tasks/foregroundHandler.py
index 49a12d1..fa0a6b6 100644
--- a/exorad/tasks/foregroundHandler.py
+++ b/exorad/tasks/foregroundHandler.py
@@ -109,16 +109,15 @@ class EstimateForeground(Task):
         if not hasattr(target, "foreground"):
             setattr(target, "foreground", OrderedDict())
         target.foreground[foreground_name] = foreground.skyFilter
-        if not hasattr(target, "skyTransmission"):
-            from exorad.models.signal import Signal
-
-            setattr(
-                target,
-                "skyTransmission",
-                Signal(wl, foreground.skyFilter.transmission),
-            )
-        else:
-            target.skyTransmission.data *= foreground.skyFilter.transmission
+        # the sky transmission is the product of the transmissions of all the
+        # foregrounds in front of the target, each of them counted only once
+        from exorad.models.signal import Signal
+
+        transmission = np.ones(wl.size)
+        for frg in target.foreground.values():
+            if getattr(frg, "transmission", None) is not None:
+                transmission = transmission * frg.transmission
+        target.skyTransmission = Signal(wl, transmission)
         self.set_output(target)
 
 
-- 
2.43.0


From aa2935185417f6d6659fe4b34fbcabb81424a675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:49 +0000
Subject: [PATCH 03/34] fix: observe targets of payloads without foregrounds,
 and forget the foregrounds of a previous observation

---
 exorad/tasks/targetHandler.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/exorad/tasks/targetHandler.py b/exorad/tasks/targetHandler.py
index b1000ff..5dd098c 100644
--- a/exorad/tasks/targetHandler.py
+++ b/exorad/tasks/targetHandler.py
@@ -244,13 +244,18 @@ class ObserveTarget(Task):
 
         target = prepareTarget(target=target, channels=channels)
 
+        # foregrounds left by a previous observation do not belong to this one
+        for attr in ("foreground", "skyTransmission"):
+            if hasattr(target, attr):
+                delattr(target, attr)
+
         if "foreground" in payload["common"]:
             target = estimateForegrounds(
                 foregrounds=payload["common"]["foreground"],
                 target=target,
                 wl_range=(wl_min, wl_max),
             )
-        target = propagateForegroundLight(channels=channels, target=target)
+            target = propagateForegroundLight(channels=channels, target=target)
 
         target, sed = loadSource(
             target=target,
-- 
2.43.0


From cf0e4367a033adc2f6bbe801bb0b98bacc0d4c90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:30 +0000
Subject: [PATCH 04/34] fix: observing a target restores the log level set by
 the user instead of INFO

---
 exorad/log/__init__.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/exorad/log/__init__.py b/exorad/log/__init__.py
index a378fa5..b6033ea 100644
--- a/exorad/log/__init__.py
+++ b/exorad/log/__init__.py
@@ -66,7 +66,10 @@ def disableLogging():
     # import logging
     # from .logger import root_logger
     # root_logger.setLevel(logging.ERROR)
-    setLogLevel(logging.ERROR)
+    from .logger import root_logger
+
+    # the level set by the user (last_log) is kept, to be restored afterwards
+    root_logger.handlers[0].setLevel(logging.ERROR)
 
 
 def enableLogging():
@@ -77,7 +80,7 @@ def enableLogging():
     #
     # # if last_log is None:
     # #     last_log = logging.INFO
-    setLogLevel(logging.INFO)
+    setLogLevel(last_log)
 
 
 def addLogFile(fname="exorad.log"):
-- 
2.43.0


From 1da68c4144e2dd66addd44f2a8f8953453cbd565 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:46 +0000
Subject: [PATCH 05/34] fix: asking twice for the same log file no longer
 doubles its lines

---
 exorad/log/__init__.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/exorad/log/__init__.py b/exorad/log/__init__.py
index b6033ea..463bc12 100644
--- a/exorad/log/__init__.py
+++ b/exorad/log/__init__.py
@@ -90,6 +90,14 @@ def addLogFile(fname="exorad.log"):
         "%(asctime)s - %(name)s - %(levelname)s - %(message)s"
     )
     file_handler = logging.FileHandler(fname)
+    # a log file already in use is replaced, or its lines would be doubled
+    for handler in list(root_logger.handlers):
+        if (
+            isinstance(handler, logging.FileHandler)
+            and handler.baseFilename == file_handler.baseFilename
+        ):
+            root_logger.removeHandler(handler)
+            handler.close()
     file_handler.setFormatter(formatter)
     file_handler.setLevel(logging.DEBUG)
     root_logger.addHandler(file_handler)
-- 
2.43.0


From 5701e7277252abf582c1640f748f276adc2e56ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:15 +0000
Subject: [PATCH 06/34] fix: interrupting the observation of a target stops the
 run instead of skipping the target

---
 exorad/tasks/targetHandler.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/exorad/tasks/targetHandler.py b/exorad/tasks/targetHandler.py
index 5dd098c..a6827c2 100644
--- a/exorad/tasks/targetHandler.py
+++ b/exorad/tasks/targetHandler.py
@@ -310,7 +310,7 @@ def pipeline_to_dict(
             )
             plt.close()
         return target.name, outputDict
-    except:
+    except Exception:
         enableLogging()
         root_logger.warning(
             "target {} skipped. Please check for previous error messages".format(
@@ -318,6 +318,9 @@ def pipeline_to_dict(
             )
         )
         return None, None
+    finally:
+        # KeyboardInterrupt and SystemExit go through, with the log level restored
+        enableLogging()
 
 
 class ObserveTargetlist(Task):
-- 
2.43.0


From 39bc5a65254652972886cd3d129b1547232276d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:29 +0000
Subject: [PATCH 07/34] fix: a skipped target no longer makes the pipeline
 crash before saving the others

---
 exorad/tasks/targetHandler.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/exorad/tasks/targetHandler.py b/exorad/tasks/targetHandler.py
index a6827c2..2f8a04c 100644
--- a/exorad/tasks/targetHandler.py
+++ b/exorad/tasks/targetHandler.py
@@ -397,14 +397,16 @@ class ObserveTargetlist(Task):
                     repeat(out_dir),
                     repeat(debug),
                 ):
-                    outputDict[t_name] = output
+                    if output is not None:
+                        outputDict[t_name] = output
         else:
             outputDict = {}
             for target in targets:
                 t_name, output = pipeline_to_dict(
                     target, payload, channels, wl_range, plot, out_dir, debug
                 )
-                outputDict[t_name] = output
+                if output is not None:
+                    outputDict[t_name] = output
 
         self.set_output(outputDict)
 
-- 
2.43.0


From e21612cdbc4035a729699c6f09ffcff3bfca47d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:43 +0000
Subject: [PATCH 08/34] fix: use the zodiacal factor when the zodiacal map
 cannot be read instead of failing

---
 exorad/models/foregrounds/zodiacalForeground.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/exorad/models/foregrounds/zodiacalForeground.py b/exorad/models/foregrounds/zodiacalForeground.py
index 0bacb83..8db5daa 100644
--- a/exorad/models/foregrounds/zodiacalForeground.py
+++ b/exorad/models/foregrounds/zodiacalForeground.py
@@ -51,7 +51,7 @@ class ZodiacalFrg(Logger):
                 A = self.zodiacal_fit_direction(coordinates, map_file)
             except (KeyError, OSError):
                 self.warning("zodiacal fit failed")
-                self._get_radiance(coordinates=None)
+                return self._get_radiance(coordinates=None)
 
         elif "zodiacFactor" in self.description:
             self.debug(" model used for zodiacal foreground")
-- 
2.43.0


From d9b779f98a0f7af0b5469c1636cf0866645ef9ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:34 +0000
Subject: [PATCH 09/34] fix: checking the connection at import no longer
 changes the default timeout of every socket of the process

---
 exorad/utils/version_control.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/exorad/utils/version_control.py b/exorad/utils/version_control.py
index 1a45584..7c9b574 100644
--- a/exorad/utils/version_control.py
+++ b/exorad/utils/version_control.py
@@ -91,10 +91,9 @@ class VersionControl(Logger):
         solution from https://stackoverflow.com/a/33117579
         """
         try:
-            socket.setdefaulttimeout(timeout)
-            socket.socket(socket.AF_INET, socket.SOCK_STREAM).connect(
-                (host, port)
-            )
+            with socket.socket(socket.AF_INET, socket.SOCK_STREAM) as sock:
+                sock.settimeout(timeout)
+                sock.connect((host, port))
             return True
         except OSError as ex:
             print(ex)
-- 
2.43.0


From 0c5fb001e2b26568433831748e45b99fa72d4e4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:52 +0000
Subject: [PATCH 10/34] fix: a stalled or unreadable answer to the version
 check no longer blocks or breaks importing the code

---
 exorad/utils/version_control.py | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/exorad/utils/version_control.py b/exorad/utils/version_control.py
index 7c9b574..fb18fc8 100644
--- a/exorad/utils/version_control.py
+++ b/exorad/utils/version_control.py
@@ -47,15 +47,18 @@ class VersionControl(Logger):
             )
         )
         self.debug("package url: {}".format(url))
-        req = requests.get(url)
-        if req.status_code == requests.codes.ok:
-            self.status_code = True
-            req = req.json()
-            content = base64.b64decode(req["content"])
-            content = content.decode("ascii")
-            content = content.splitlines()
-        else:
-            self.status_code = False
+        self.status_code = False
+        content = None
+        try:
+            req = requests.get(url, timeout=5)
+            if req.status_code == requests.codes.ok:
+                content = base64.b64decode(req.json()["content"])
+                content = content.decode("utf-8", errors="replace")
+                content = content.splitlines()
+                self.status_code = True
+        except Exception as ex:
+            # a missing or unreadable answer must not prevent using the code
+            self.debug("impossible to check the online version: {}".format(ex))
             content = None
         return content
 
-- 
2.43.0


From 9b04953654699fd64ca7f41610c25996e1596299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:51 +0000
Subject: [PATCH 11/34] fix: an error met when writing a dataset is raised
 instead of leaving wrong data in the output file

---
 exorad/output/hdf5/hdf5.py | 50 +++++++++++++++++++++++++++-----------
 1 file changed, 36 insertions(+), 14 deletions(-)

diff --git a/exorad/output/hdf5/hdf5.py b/exorad/output/hdf5/hdf5.py
index 1f8c49f..50c05e4 100644
--- a/exorad/output/hdf5/hdf5.py
+++ b/exorad/output/hdf5/hdf5.py
@@ -67,6 +67,16 @@ from exorad.output.output import OutputGroup
 META_KEY = "__table_column_meta__"
 
 
+def _create_dataset(entry, *args, **kwargs):
+    """
+    Creates a dataset in the group and sends it to the file: an error met
+    when writing is raised here, while it is lost when the dataset is released.
+    """
+    ds = entry.create_dataset(*args, **kwargs)
+    ds.flush()
+    return ds
+
+
 class HDF5OutputGroup(OutputGroup):
     def __init__(self, entry):
         self.set_log_name()
@@ -77,8 +87,12 @@ class HDF5OutputGroup(OutputGroup):
             for idx, a in enumerate(array):
                 self.write_array("{}{}".format(array_name, idx), a, metadata)
             return
-        ds = self._entry.create_dataset(
-            str(array_name), data=array, shape=array.shape, dtype=array.dtype
+        ds = _create_dataset(
+            self._entry,
+            str(array_name),
+            data=array,
+            shape=array.shape,
+            dtype=array.dtype,
         )
         if metadata:
             for k, v in metadata.items():
@@ -90,29 +104,31 @@ class HDF5OutputGroup(OutputGroup):
             table = table.copy(copy_data=False)
             table.convert_unicode_to_bytestring()
 
-        self._entry.create_dataset(str(table_name), data=table.as_array())
+        _create_dataset(self._entry, str(table_name), data=table.as_array())
         header_yaml = meta.get_yaml_from_table(table)
 
         header_encoded = [h.encode("utf-8") for h in header_yaml]
-        self._entry.create_dataset(
-            str(table_name) + "." + META_KEY, data=header_encoded
+        _create_dataset(
+            self._entry,
+            str(table_name) + "." + META_KEY,
+            data=header_encoded,
         )
 
         tg = self._entry.create_group("{}_to_group".format(str(table_name)))
         for col in table.keys():
             tg_c = tg.create_group(str(col))
-            tg_c.create_dataset("value", data=table[col])
+            _create_dataset(tg_c, "value", data=table[col])
             if table[col].unit != None:
-                tg_c.create_dataset("unit", data=str(table[col].unit))
+                _create_dataset(tg_c, "unit", data=str(table[col].unit))
 
     def write_scalar(self, scalar_name, scalar, metadata=None):
-        ds = self._entry.create_dataset(str(scalar_name), data=scalar)
+        ds = _create_dataset(self._entry, str(scalar_name), data=scalar)
         if metadata:
             for k, v in metadata.items():
                 ds.attrs[k] = v
 
     def write_string(self, string_name, string, metadata=None):
-        ds = self._entry.create_dataset(str(string_name), data=string)
+        ds = _create_dataset(self._entry, str(string_name), data=string)
         if metadata:
             for k, v in metadata.items():
                 ds.attrs[k] = v
@@ -128,8 +144,12 @@ class HDF5OutputGroup(OutputGroup):
 
     def write_string_array(self, string_name, string_array, metadata=None):
         asciiList = [n.encode("ascii", "ignore") for n in string_array]
-        ds = self._entry.create_dataset(
-            str(string_name), (len(asciiList), 1), "S64", asciiList
+        ds = _create_dataset(
+            self._entry,
+            str(string_name),
+            (len(asciiList), 1),
+            "S64",
+            asciiList,
         )
 
         if metadata:
@@ -138,17 +158,19 @@ class HDF5OutputGroup(OutputGroup):
 
     def write_quantity(self, quantity_name, quantity):
         if quantity_name == "value":
-            self._entry.create_dataset(
+            _create_dataset(
+                self._entry,
                 "value",
                 data=quantity.value,
             )
         else:
             qg_c = self._entry.create_group(str(quantity_name))
-            qg_c.create_dataset(
+            _create_dataset(
+                qg_c,
                 "value",
                 data=quantity.value,
             )
-            qg_c.create_dataset("unit", data=str(quantity.unit))
+            _create_dataset(qg_c, "unit", data=str(quantity.unit))
             pass
 
 
-- 
2.43.0


From 85482a8a24e0acddb62998b2ae3bb471414829df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:08 +0000
Subject: [PATCH 12/34] fix: release the output file when opening or flushing
 it fails

---
 exorad/output/hdf5/hdf5.py | 31 +++++++++++++++++++------------
 1 file changed, 19 insertions(+), 12 deletions(-)

diff --git a/exorad/output/hdf5/hdf5.py b/exorad/output/hdf5/hdf5.py
index 50c05e4..fa97d35 100644
--- a/exorad/output/hdf5/hdf5.py
+++ b/exorad/output/hdf5/hdf5.py
@@ -233,16 +233,21 @@ class HDF5Output(Output):
         }
 
         fd = h5py.File(fname, mode=mode)
-        for key in attrs:
-            fd.attrs[key] = attrs[key]
-
-        if mode == "w" or "info" not in fd.keys():
-            try:
-                gd_ = fd["info"]
-            except KeyError:
-                gd_ = fd.create_group("info")
-            gd = HDF5OutputGroup(gd_)
-            gd.store_dictionary(attrs, "ExoRad")
+        try:
+            for key in attrs:
+                fd.attrs[key] = attrs[key]
+
+            if mode == "w" or "info" not in fd.keys():
+                try:
+                    gd_ = fd["info"]
+                except KeyError:
+                    gd_ = fd.create_group("info")
+                gd = HDF5OutputGroup(gd_)
+                gd.store_dictionary(attrs, "ExoRad")
+        except BaseException:
+            # __exit__ is not called when opening fails: release the file here
+            fd.close()
+            raise
 
         return fd
 
@@ -261,8 +266,10 @@ class HDF5Output(Output):
 
     def close(self):
         if self.fd:
-            self.fd.flush()
-            self.fd.close()
+            try:
+                self.fd.flush()
+            finally:
+                self.fd.close()
 
 
 
-- 
2.43.0


From f76189e385cf26801ec2bd9d74cba033933534c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:37 +0000
Subject: [PATCH 13/34] fix: noise and maximum signal can be estimated again on
 an already observed target

---
 exorad/models/noise.py        | 13 +++++++++++--
 exorad/tasks/targetHandler.py |  7 ++++++-
 2 files changed, 17 insertions(+), 3 deletions(-)

diff --git a/exorad/models/noise.py b/exorad/models/noise.py
index a6f524d..42f3cb2 100644
--- a/exorad/models/noise.py
+++ b/exorad/models/noise.py
@@ -105,6 +105,15 @@ def multiaccum(channel, t_frame):
     return read_gain, shot_gain
 
 
+def _signal_keys(table):
+    # the noises of a previous estimation are not signals
+    return [
+        key
+        for key in table.keys()
+        if "signal" in key and not key.endswith("_noise")
+    ]
+
+
 def photon_noise(table, channel, shot_gain, out):
     """
     Given the channel and channel descriptions, populates the output table with photon noises
@@ -127,7 +136,7 @@ def photon_noise(table, channel, shot_gain, out):
     """
     name = channel["value"]
 
-    signals = [key for key in table.keys() if "signal" in key]
+    signals = _signal_keys(table)
     for key in signals:
         noise_key = "{}_noise".format(key)
         out[noise_key] = (
@@ -161,7 +170,7 @@ def photon_noise_variance(table, out):
         sum of photon variances
     """
     '''
-    signals = [key for key in table.keys() if "signal" in key]
+    signals = _signal_keys(table)
     _photon_noise_variance = (
         np.zeros(out["frameTime"].size) * (u.count / u.s) ** 2 * u.hr
     )
diff --git a/exorad/tasks/targetHandler.py b/exorad/tasks/targetHandler.py
index 2f8a04c..9344ed8 100644
--- a/exorad/tasks/targetHandler.py
+++ b/exorad/tasks/targetHandler.py
@@ -175,7 +175,12 @@ class EstimateMaxSignal(Task):
         self.info("estimating max signal in pixel")
         target = self.get_task_param("target")
         table = target.table
-        signals = [key for key in table.keys() if "Max" in key]
+        # the total of a previous estimation is not one of the contributions
+        signals = [
+            key
+            for key in table.keys()
+            if "Max" in key and key != "MaxSignal_inPixel"
+        ]
         max_signal = np.zeros(table["Wavelength"].size) * u.count / u.s
         for key in signals:
             max_signal += table[key]
-- 
2.43.0


From 2e6cb8e59a9af5e14ba429fba67cf2045c3b4a00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:46 +0000
Subject: [PATCH 14/34] fix: a payload is built and observed with its own
 working_R, not with the one of the last payload loaded

---
 exorad/models/instruments/instrument.py |  1 +
 exorad/tasks/loadOptions.py             |  1 +
 exorad/tasks/targetHandler.py           |  2 ++
 exorad/utils/passVal.py                 | 13 ++++++++++++-
 4 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/exorad/models/instruments/instrument.py b/exorad/models/instruments/instrument.py
index d103aa0..8b60d96 100644
--- a/exorad/models/instruments/instrument.py
+++ b/exorad/models/instruments/instrument.py
@@ -95,6 +95,7 @@ class Instrument(Logger):
             # you cannot load the description and run it again because it's not an ordered dictionary anymore
             raise ValueError("You cannot build a loaded instrument")
         else:
+            PassVal.use_payload(self.payload)
             self.builder()
             self.build_optical_path()
 
diff --git a/exorad/tasks/loadOptions.py b/exorad/tasks/loadOptions.py
index 36d71a8..462b6aa 100644
--- a/exorad/tasks/loadOptions.py
+++ b/exorad/tasks/loadOptions.py
@@ -49,6 +49,7 @@ class LoadOptions(Task):
         self.__check_format__()
         root = self.__get_root__()
         self._dict = self.__parser__(root)
+        PassVal.use_payload(self._dict)
         # self.debug('loaded options: {}'.format(self._dict))
         self.set_output(self._dict)
 
diff --git a/exorad/tasks/targetHandler.py b/exorad/tasks/targetHandler.py
index 9344ed8..661ffd6 100644
--- a/exorad/tasks/targetHandler.py
+++ b/exorad/tasks/targetHandler.py
@@ -9,6 +9,7 @@ from .task import Task
 from exorad.__version__ import __version__
 from exorad.log import disableLogging
 from exorad.log import enableLogging
+from exorad.utils.passVal import PassVal
 
 
 class LoadTargetList(Task):
@@ -230,6 +231,7 @@ class ObserveTarget(Task):
         payload = self.get_task_param("payload")
         channels = self.get_task_param("channels")
         wl_min, wl_max = self.get_task_param("wl_range")
+        PassVal.use_payload(payload)
 
         from . import (
             PrepareTarget,
diff --git a/exorad/utils/passVal.py b/exorad/utils/passVal.py
index 50278e3..143127e 100644
--- a/exorad/utils/passVal.py
+++ b/exorad/utils/passVal.py
@@ -27,7 +27,8 @@ class PassValInit(metaclass=SingletonMeta):
     Class used to propagate values through the code.
     """
 
-    _working_R = 6000
+    _default_working_R = 6000
+    _working_R = _default_working_R
 
     @property
     def working_R(self):
@@ -37,5 +38,15 @@ class PassValInit(metaclass=SingletonMeta):
     def working_R(self, val):
         self._working_R = val
 
+    def use_payload(self, payload):
+        """
+        Restores the values of a payload, or the default ones if it has none,
+        whatever payload has been loaded in the meanwhile.
+        """
+        try:
+            self.working_R = payload["common"]["working_R"]["value"]
+        except KeyError:
+            self.working_R = self._default_working_R
+
 
 PassVal = PassValInit()
-- 
2.43.0


From 7781105c834576b4ae597dc31990976d2e4f36e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:40 +0000
Subject: [PATCH 15/34] fix: ConfigPath does not leak to the next file read by
 the same loader, and h5 datadict files can be read

---
 exorad/tasks/loadOptions.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/exorad/tasks/loadOptions.py b/exorad/tasks/loadOptions.py
index 462b6aa..2b92678 100644
--- a/exorad/tasks/loadOptions.py
+++ b/exorad/tasks/loadOptions.py
@@ -46,6 +46,8 @@ class LoadOptions(Task):
     def execute(self):
         self._filename = self.get_task_param("filename")
         self._config_path = self.get_task_param("config_path")
+        # the path set by a file already loaded does not apply to this one
+        self.configPath = None
         self.__check_format__()
         root = self.__get_root__()
         self._dict = self.__parser__(root)
@@ -210,14 +212,16 @@ class LoadOptions(Task):
         if ext in [".h5", ".hdf5"]:
             from exorad.output.hdf5 import load
 
-            data = load(datadict)
+            import h5py
+
+            with h5py.File(datadict, "r") as f:
+                data = load(f)
             return data
         elif ext == ".pickle":
             import pickle
 
-            f = open(datadict, "rb")
-            data = pickle.load(f)
-            f.close()
+            with open(datadict, "rb") as f:
+                data = pickle.load(f)
             return data
         else:
             self.error("inconsistent table")
-- 
2.43.0


From d5ae166d4d6617874fdb2907d4400ef1a55ed4a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:24 +0000
Subject: [PATCH 16/34] fix: a payload saved in an output file can be loaded
 and used to observe again

---
 exorad/models/instruments/instrument.py | 25 ++++++++++++++++++++++++-
 exorad/models/noise.py                  |  5 ++---
 exorad/output/hdf5/util.py              |  6 +++++-
 exorad/tasks/foregroundHandler.py       |  3 ++-
 exorad/tasks/instrumentHandler.py       |  6 ++++--
 5 files changed, 37 insertions(+), 8 deletions(-)

diff --git a/exorad/models/instruments/instrument.py b/exorad/models/instruments/instrument.py
index 8b60d96..733d1c7 100644
--- a/exorad/models/instruments/instrument.py
+++ b/exorad/models/instruments/instrument.py
@@ -5,6 +5,7 @@ import astropy.constants as const
 import astropy.units as u
 import numpy as np
 from astropy.table import QTable
+from astropy.table import Table
 from scipy.interpolate import interp1d
 
 from exorad.log.logger import Logger
@@ -65,10 +66,32 @@ class Instrument(Logger):
         it loads the instrument parameters already processed from a file
         """
         self.table = table
-        self.built_instr = built_instr
+        self.built_instr = {
+            key: self._restore_built_data(data)
+            for key, data in built_instr.items()
+        }
         self.loaded = True
         self.info("{} loaded".format(self.name))
 
+    def _restore_built_data(self, data):
+        """
+        it restores the format that the data had when the instrument was built
+        """
+        if not isinstance(data, dict):
+            return data
+        if set(data.keys()) == {"value", "unit"}:
+            return data["value"]
+        if "wl_grid" in data.keys():
+            # signals are kept as dictionaries of values and units
+            return {
+                key: {"value": item["value"].value, "unit": item["unit"]}
+                for key, item in data.items()
+            }
+        return {
+            key: QTable(item) if isinstance(item, Table) else item
+            for key, item in data.items()
+        }
+
     def write(self, output):
         """
         it writes the instrument parameters already processed from a file
diff --git a/exorad/models/noise.py b/exorad/models/noise.py
index 42f3cb2..bd04032 100644
--- a/exorad/models/noise.py
+++ b/exorad/models/noise.py
@@ -1,6 +1,4 @@
 import logging
-from collections import OrderedDict
-
 import numpy as np
 from astropy import units as u
 
@@ -198,7 +196,8 @@ def add_custom_noise(custom, wl, out):
             + custom_noise.data * custom_noise.data
         )
 
-    if isinstance(custom, OrderedDict):
+    # a single custom noise has its own value, more custom noises do not
+    if "value" not in custom:
         for contrib in custom:
             custom_noise = (
                 custom[contrib]["value"]
diff --git a/exorad/output/hdf5/util.py b/exorad/output/hdf5/util.py
index 3cdc912..306f87d 100644
--- a/exorad/output/hdf5/util.py
+++ b/exorad/output/hdf5/util.py
@@ -33,7 +33,9 @@ def recursively_read_dict_contents(input_dict):
     #     time = input['time_grid']['value'] * u.Unit(input['time_grid']['unit'])
     #     input = signal[str(input['data']['unit'])](wl, data, time)
     if all(elem in new_keys for elem in ["value", "unit"]):
-        input_dict["value"] = input_dict["value"] * u.Unit(input_dict["unit"])
+        unit = input_dict["unit"]
+        unit = "" if unit == "dimensionless" else unit
+        input_dict["value"] = input_dict["value"] * u.Unit(unit)
 
     if any(".__table_column_meta__" in elem for elem in new_keys):
         table_keys = [
@@ -67,6 +69,8 @@ def hdf5_group_to_dict(h5_group):
         if isinstance(item, h5py.Dataset):
             # Convert dataset to numpy array and store
             result[key] = item[()]  # This reads the dataset into a numpy array
+            if isinstance(result[key], bytes):
+                result[key] = result[key].decode("utf-8")
         elif isinstance(item, h5py.Group):
             # Recurse into subgroups
             result[key] = hdf5_group_to_dict(item)
diff --git a/exorad/tasks/foregroundHandler.py b/exorad/tasks/foregroundHandler.py
index fa0a6b6..4cddab3 100644
--- a/exorad/tasks/foregroundHandler.py
+++ b/exorad/tasks/foregroundHandler.py
@@ -154,7 +154,8 @@ class EstimateForegrounds(Task):
         estimateZodi = EstimateZodi()
         estimateForeground = EstimateForeground()
 
-        if isinstance(foregrounds, OrderedDict):
+        # a single foreground has its own value, more foregrounds do not
+        if "value" not in foregrounds:
             for foreground in foregrounds:
                 if foreground == "zodiacal":
                     target = estimateZodi(
diff --git a/exorad/tasks/instrumentHandler.py b/exorad/tasks/instrumentHandler.py
index 6a440ce..e416c6c 100644
--- a/exorad/tasks/instrumentHandler.py
+++ b/exorad/tasks/instrumentHandler.py
@@ -1,6 +1,7 @@
 from collections import OrderedDict
 
 from astropy.io.misc.hdf5 import read_table_hdf5
+from astropy.table import QTable
 
 from .task import Task
 from exorad.models.instruments import Photometer
@@ -188,14 +189,15 @@ class LoadPayload(Task):
             ch_dir = channels_dir[ch]
             description = load(ch_dir["description"])
             instrument = instruments[
-                description["channelClass"]["value"].lower().decode("utf-8")
+                description["channelClass"]["value"].lower()
             ]
             channels[ch] = instrument(
                 name=ch,
                 description=description,
                 payload=payload,
             )
-            table = read_table_hdf5(ch_dir, path=ch)
+            table = QTable(read_table_hdf5(ch_dir, path=ch))
+            table.convert_bytestring_to_unicode()
             built_instr = load(ch_dir["built_instr"])
             channels[ch].load(table, built_instr)
         self.debug("channels loaded: {}".format(channels))
-- 
2.43.0


From 3590309bef4941d09246280b536d87e6501644e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:40 +0000
Subject: [PATCH 17/34] fix: the colors of the bands in the plots do not depend
 on the hash seed

---
 exorad/utils/plotter.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/exorad/utils/plotter.py b/exorad/utils/plotter.py
index 85ae564..a926b26 100644
--- a/exorad/utils/plotter.py
+++ b/exorad/utils/plotter.py
@@ -53,7 +53,8 @@ class Plotter(Logger):
         ----
         The Class input_table input parameter is required for this method to work.
         """
-        channels = set(self.inputTable["chName"])
+        # in order of appearance: the colors do not change between the runs
+        channels = list(dict.fromkeys(self.inputTable["chName"]))
         norm = matplotlib.colors.Normalize(vmin=0.0, vmax=len(channels))
         tick_list = []
 
-- 
2.43.0


From 6e2cd775d5073fab7361166673e7d84f48216f4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:29 +0000
Subject: [PATCH 18/34] fix: refuse to replace an input file with the output
 instead of deleting it

---
 exorad/exorad.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/exorad/exorad.py b/exorad/exorad.py
index 9c27b0d..4245606 100644
--- a/exorad/exorad.py
+++ b/exorad/exorad.py
@@ -60,6 +60,17 @@ def standard_pipeline(
         addLogFile()
 
     if output is not None:
+        for input_file in (options, target_list):
+            if (
+                isinstance(input_file, str)
+                and os.path.exists(input_file)
+                and os.path.exists(output)
+                and os.path.samefile(input_file, output)
+                and replace
+            ):
+                raise OSError(
+                    "{} is an input file: it cannot be replaced".format(output)
+                )
         if replace:
             if os.path.exists(output):
                 os.remove(output)
-- 
2.43.0


From dab4963c137c8b8729387962f3430a8e7ff70584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:42 +0000
Subject: [PATCH 19/34] fix: restarting from a saved file does not copy it over
 an output file with the same name

---
 exorad/exorad.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/exorad/exorad.py b/exorad/exorad.py
index 4245606..34e2d56 100644
--- a/exorad/exorad.py
+++ b/exorad/exorad.py
@@ -80,14 +80,14 @@ def standard_pipeline(
             os.makedirs(out_dir)
             logger.info("output directory created")
         logger.info("output directory set as {}".format(out_dir))
-        try:
-            shutil.copy(options, out_dir)
-        except shutil.SameFileError:
-            pass
-        try:
-            shutil.copy(target_list, out_dir)
-        except shutil.SameFileError:
-            pass
+        for input_file in (options, target_list):
+            # the copy of an input file must not take the place of the output
+            if os.path.basename(input_file) == os.path.basename(output):
+                continue
+            try:
+                shutil.copy(input_file, out_dir)
+            except shutil.SameFileError:
+                pass
     else:
         out_dir = None
 
-- 
2.43.0


From 03be0c33a9c02a5b804893a220ce69f11a1dd986 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:22 +0000
Subject: [PATCH 20/34] fix: tell when a target listed twice is kept once, and
 close the figure of a plot that fails

---
 exorad/tasks/targetHandler.py | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/exorad/tasks/targetHandler.py b/exorad/tasks/targetHandler.py
index 661ffd6..4cfa46d 100644
--- a/exorad/tasks/targetHandler.py
+++ b/exorad/tasks/targetHandler.py
@@ -311,11 +311,13 @@ def pipeline_to_dict(
 
             matplotlib.use("Agg")
             plotter = Plotter(input_table=target.table)
-            plotter.plot_table()
-            plotter.save_fig(
-                os.path.join(out_dir, "{}.png".format(target.name))
-            )
-            plt.close()
+            try:
+                plotter.plot_table()
+                plotter.save_fig(
+                    os.path.join(out_dir, "{}.png".format(target.name))
+                )
+            finally:
+                plt.close()
         return target.name, outputDict
     except Exception:
         enableLogging()
@@ -374,7 +376,7 @@ class ObserveTargetlist(Task):
         self.addTaskParam("debug", "debug mode", False)
 
     def execute(self):
-        targets = self.get_task_param("targets")
+        targets = list(self.get_task_param("targets"))
         n_thread = self.get_task_param("n_thread")
         payload = self.get_task_param("payload")
         channels = self.get_task_param("channels")
@@ -384,6 +386,15 @@ class ObserveTargetlist(Task):
         debug = self.get_task_param("debug")
         outputDict = {}
 
+        names = [str(target.name) for target in targets]
+        for name in dict.fromkeys(names):
+            if names.count(name) > 1:
+                self.warning(
+                    "target {} is listed {} times: only the last one is kept".format(
+                        name, names.count(name)
+                    )
+                )
+
         if n_thread > 1:
             from concurrent.futures import (
                 ProcessPoolExecutor,
-- 
2.43.0


From fe64109f553927894483050947ff4490c747d128 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:29 +0000
Subject: [PATCH 21/34] fix: interrupting the reading of the input files stops
 it instead of being ignored

---
 exorad/models/targetlist.py | 2 +-
 exorad/tasks/loadOptions.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/exorad/models/targetlist.py b/exorad/models/targetlist.py
index 666c2ca..50c2a91 100644
--- a/exorad/models/targetlist.py
+++ b/exorad/models/targetlist.py
@@ -49,7 +49,7 @@ class BaseTargetList(Logger):
         try:
             planet_keys = self.planet_keys()
             planet_data = self.planet_data()
-        except:
+        except Exception:
             pass
 
         target_list = []
diff --git a/exorad/tasks/loadOptions.py b/exorad/tasks/loadOptions.py
index 2b92678..429191a 100644
--- a/exorad/tasks/loadOptions.py
+++ b/exorad/tasks/loadOptions.py
@@ -134,7 +134,7 @@ class LoadOptions(Task):
             try:
                 datatype_attr = root_dict["datatype"]
                 datatype = datatype_attr["value"]
-            except:
+            except KeyError:
                 datatype = "ecsv"
 
             attrValue = root_dict["datafile"]
-- 
2.43.0


From 09dcacb1332a2e57417a9d622cbcb3fc06722784 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:42 +0000
Subject: [PATCH 22/34] fix: the stellar model chosen among equally distant
 ones does not depend on the order of the files in the directory

---
 exorad/models/source.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/exorad/models/source.py b/exorad/models/source.py
index f8b2427..a2cb6dc 100755
--- a/exorad/models/source.py
+++ b/exorad/models/source.py
@@ -99,7 +99,7 @@ class Star(Logger):
             "*.BT-Settl.spec.fits.gz"
         ]  # , "*.7.bz2", "*.7.gz", "*HiRes.fits"]
         for format in format_list:
-            sed_name = glob.glob(os.path.join(path, format))
+            sed_name = sorted(glob.glob(os.path.join(path, format)))
             if len(sed_name) != 0:
                 return sed_name
 
-- 
2.43.0


From bbc6813546a6378ac6d15a59d7b9ba549cef84f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:47 +0000
Subject: [PATCH 23/34] fix: observing a target with a single channel payload
 does not write its metadata in the channel table

---
 exorad/tasks/targetHandler.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/exorad/tasks/targetHandler.py b/exorad/tasks/targetHandler.py
index 4cfa46d..3069f98 100644
--- a/exorad/tasks/targetHandler.py
+++ b/exorad/tasks/targetHandler.py
@@ -93,7 +93,8 @@ class PrepareTarget(Task):
         channels = self.get_task_param("channels")
 
         mergeChannelsOutput = MergeChannelsOutput()
-        table = mergeChannelsOutput(channels=channels)
+        # with a single channel the merged table is the channel table itself
+        table = mergeChannelsOutput(channels=channels).copy()
         table = self.add_metadata(table, target)
         target.table = table
         self.set_output(target)
-- 
2.43.0


From 31092787724ed37ed900607772be31f5c0cbab93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:42 +0000
Subject: [PATCH 24/34] fix: an interrupt just before the observation of a
 target no longer leaves the console showing errors only

---
 exorad/tasks/targetHandler.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/exorad/tasks/targetHandler.py b/exorad/tasks/targetHandler.py
index 3069f98..fe0cfb6 100644
--- a/exorad/tasks/targetHandler.py
+++ b/exorad/tasks/targetHandler.py
@@ -293,9 +293,9 @@ def pipeline_to_dict(
     observeTarget = ObserveTarget()
 
     root_logger.info("observing {}".format(target.name))
-    if not debug:
-        disableLogging()
     try:
+        if not debug:
+            disableLogging()
         target = observeTarget(
             target=target,
             payload=payload,
-- 
2.43.0


From 96ba7fa0e4c88eba9ac5946cd8acfaf00f6c85a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:40 +0000
Subject: [PATCH 25/34] fix: close the efficiency figure when plotting or
 saving it fails

---
 exorad/exorad.py | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/exorad/exorad.py b/exorad/exorad.py
index 34e2d56..4608199 100644
--- a/exorad/exorad.py
+++ b/exorad/exorad.py
@@ -25,15 +25,17 @@ observeTargetList = tasks.ObserveTargetlist()
 def efficiency_plot(channels, output_dir=None):
     table = mergeChannelsOutput(channels=channels)
     plotter = Plotter(channels=channels, input_table=table)
-    plotter.plot_efficiency()
-    if output_dir is None:
-        plt.show()
-    else:
-        plotter.save_fig(
-            os.path.join(output_dir, "efficiency.png"), efficiency=True
-        )
-        logger.info("efficiency plot saved in output directory")
-    plt.close()
+    try:
+        plotter.plot_efficiency()
+        if output_dir is None:
+            plt.show()
+        else:
+            plotter.save_fig(
+                os.path.join(output_dir, "efficiency.png"), efficiency=True
+            )
+            logger.info("efficiency plot saved in output directory")
+    finally:
+        plt.close()
 
 
 def standard_pipeline(
-- 
2.43.0


From 6352249feb5b4a55f71c885ccd63bbc052547fdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:12 +0000
Subject: [PATCH 26/34] fix: a payload whose saving was interrupted is refused
 instead of used with the channels and data it has

---
 exorad/output/hdf5/hdf5.py        | 9 +++++++++
 exorad/output/output.py           | 6 ++++++
 exorad/tasks/instrumentHandler.py | 8 ++++++++
 3 files changed, 23 insertions(+)

diff --git a/exorad/output/hdf5/hdf5.py b/exorad/output/hdf5/hdf5.py
index fa97d35..3372327 100644
--- a/exorad/output/hdf5/hdf5.py
+++ b/exorad/output/hdf5/hdf5.py
@@ -82,6 +82,15 @@ class HDF5OutputGroup(OutputGroup):
         self.set_log_name()
         self._entry = entry
 
+    def start_saving(self):
+        """marks a new group as incomplete, until its saving ends"""
+        if len(self._entry) == 0:
+            self._entry.attrs["complete"] = False
+
+    def end_saving(self):
+        """marks the group as complete"""
+        self._entry.attrs["complete"] = True
+
     def write_array(self, array_name, array, metadata=None):
         if isinstance(array, list):
             for idx, a in enumerate(array):
diff --git a/exorad/output/output.py b/exorad/output/output.py
index 49945a6..97fabfb 100644
--- a/exorad/output/output.py
+++ b/exorad/output/output.py
@@ -90,6 +90,12 @@ class OutputGroup(Output, ABC):
         super().__init__(name)
         self._name = name
 
+    def start_saving(self):
+        raise NotImplementedError
+
+    def end_saving(self):
+        raise NotImplementedError
+
     def write_array(self, array_name, array, metadata=None):
         raise NotImplementedError
 
diff --git a/exorad/tasks/instrumentHandler.py b/exorad/tasks/instrumentHandler.py
index e416c6c..f642e50 100644
--- a/exorad/tasks/instrumentHandler.py
+++ b/exorad/tasks/instrumentHandler.py
@@ -113,6 +113,8 @@ class BuildChannels(Task):
         ch = None
         if self.get_task_param("write"):
             inst = self.get_task_param("output").create_group("payload")
+            # a payload whose saving stops midway is known by this mark
+            inst.start_saving()
             inst.store_dictionary(
                 self.get_task_param("payload"),
                 group_name="payload description",
@@ -150,6 +152,8 @@ class BuildChannels(Task):
             )
             if self.get_task_param("write"):
                 channels[det].write(ch)
+        if self.get_task_param("write"):
+            inst.end_saving()
         self.debug("channels : {}".format(channels))
         self.set_output(channels)
 
@@ -182,6 +186,10 @@ class LoadPayload(Task):
 
     def execute(self):
         payload_dir = self.get_task_param("input")["payload"]
+        # files written by previous versions have no mark
+        if not getattr(payload_dir, "attrs", {}).get("complete", True):
+            self.error("the payload was not completely saved")
+            raise OSError("the payload was not completely saved")
         payload = load(payload_dir["payload description"])
         channels_dir = payload_dir["channels"]
         channels = {}
-- 
2.43.0


From fe52cd43f4697c05b09abd4d8928f02573aed703 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:42 +0000
Subject: [PATCH 27/34] fix: a zodiacal map that is missing or cannot be read
 is told, and is not replaced by another map

---
 exorad/models/foregrounds/zodiacalForeground.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/exorad/models/foregrounds/zodiacalForeground.py b/exorad/models/foregrounds/zodiacalForeground.py
index 8db5daa..5d45bef 100644
--- a/exorad/models/foregrounds/zodiacalForeground.py
+++ b/exorad/models/foregrounds/zodiacalForeground.py
@@ -95,7 +95,8 @@ class ZodiacalFrg(Logger):
             else os.path.join(exorad_path, "data/Zodi_map.hdf5")
         )
 
-        if not os.path.isfile(zodi_map_file):
+        # the map of the user is never replaced by another one
+        if not map_file and not os.path.isfile(zodi_map_file):
             dir_path = Path(__file__).parent.absolute()
 
             i = 0
@@ -126,6 +127,7 @@ class ZodiacalFrg(Logger):
             self.debug(zodi_table[idx])
             return zodi_table["zodi_coeff"][idx]
 
-        except OSError:
+        except (OSError, KeyError, ValueError, RuntimeError):
+            # the file is missing, cannot be read, or is not a map
             self.error("Zodi map file not found")
             raise OSError("Zodi map file not found")
-- 
2.43.0


From fced9732c5f84b78a7b0d94e6ad6816a194cd4db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:05 +0000
Subject: [PATCH 28/34] fix: the version notice lists the changes down to the
 running version, not to its first mention

---
 exorad/utils/version_control.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/exorad/utils/version_control.py b/exorad/utils/version_control.py
index fb18fc8..227616e 100644
--- a/exorad/utils/version_control.py
+++ b/exorad/utils/version_control.py
@@ -78,7 +78,7 @@ class VersionControl(Logger):
                     message += line + "\n"
                     new_ver = line[line.find("[") + 1 : line.find("]")]
                     for line_ in self.content[i + 1 :]:
-                        if self.current_version in line_:
+                        if "## [{}]".format(self.current_version) in line_:
                             break
                         elif line_ != "":
                             message += line_ + "\n"
-- 
2.43.0


From 481f60f038766b12ad1b855ce5b69be9557c36d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:03 +0000
Subject: [PATCH 29/34] fix: scattering more elements than ranks is refused on
 every rank instead of blocking all but the root

---
 exorad/utils/mpi.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/exorad/utils/mpi.py b/exorad/utils/mpi.py
index b09ac55..c249653 100644
--- a/exorad/utils/mpi.py
+++ b/exorad/utils/mpi.py
@@ -48,7 +48,7 @@ def scatter(data, root=0):
     from mpi4py import MPI
 
     comm = MPI.COMM_WORLD
-    if len(data) < nprocs():
+    if len(data) != nprocs():
         raise ValueError("not enough processes! work in progress")
     else:
         data = comm.scatter(data, root=root)
-- 
2.43.0


From c988d3482313b24983029395d1cc61d1a50c0655 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:10 +0000
Subject: [PATCH 30/34] fix: the plotting tool closes its input file and its
 figure when it fails

---
 exorad/utils/plotter.py | 53 +++++++++++++++++++++++------------------
 1 file changed, 30 insertions(+), 23 deletions(-)

diff --git a/exorad/utils/plotter.py b/exorad/utils/plotter.py
index a926b26..6f44238 100644
--- a/exorad/utils/plotter.py
+++ b/exorad/utils/plotter.py
@@ -487,29 +487,36 @@ def main():
         logger.info("output directory created")
 
     logger.info("reading {}".format(args.input))
-    file = h5py.File(args.input)
-
-    if args.target_number != "all" and args.target_name != "None":
-        logger.error("you cannot use both target number and target name")
-        raise ValueError
-
-    targets_dir = file["targets"]
-    targets_to_run_id = parse_range(
-        args.target_number, len(targets_dir.keys())
-    )
-    targets_to_run = [list(targets_dir.keys())[n] for n in targets_to_run_id]
-
-    if args.target_name != "None":
+    with h5py.File(args.input, "r") as file:
+        if args.target_number != "all" and args.target_name != "None":
+            logger.error("you cannot use both target number and target name")
+            raise ValueError
+
+        targets_dir = file["targets"]
+        targets_to_run_id = parse_range(
+            args.target_number, len(targets_dir.keys())
+        )
         targets_to_run = [
-            target for target in targets_to_run if target == args.target_name
+            list(targets_dir.keys())[n] for n in targets_to_run_id
         ]
 
-    for target in targets_to_run:
-        target_dir = targets_dir[target]
-        table_dir = target_dir["table"]
-        table = read_table_hdf5(table_dir, path="table")
-
-        plotter = Plotter(input_table=table)
-        plotter.plot_table()
-        plotter.save_fig(os.path.join(args.out, "{}.png".format(target)))
-        plt.close()
+        if args.target_name != "None":
+            targets_to_run = [
+                target
+                for target in targets_to_run
+                if target == args.target_name
+            ]
+
+        for target in targets_to_run:
+            target_dir = targets_dir[target]
+            table_dir = target_dir["table"]
+            table = read_table_hdf5(table_dir, path="table")
+
+            plotter = Plotter(input_table=table)
+            try:
+                plotter.plot_table()
+                plotter.save_fig(
+                    os.path.join(args.out, "{}.png".format(target))
+                )
+            finally:
+                plt.close()
-- 
2.43.0


From eaa5fd1e22cb0fdf7314fc9fcc530c966900111b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:35 +0000
Subject: [PATCH 31/34] fix: a PSF file that is missing is an error, and is not
 replaced by the diffraction pattern

---
 exorad/utils/exolib.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/exorad/utils/exolib.py b/exorad/utils/exolib.py
index 0d0c66d..ca51217 100644
--- a/exorad/utils/exolib.py
+++ b/exorad/utils/exolib.py
@@ -211,7 +211,11 @@ def binnedPSF(
     PSFtype="AIRY",
     plot=False,
 ):
-    if filename and os.path.exists(filename):
+    if filename:
+        filename = os.path.expanduser(filename)
+        if not os.path.exists(filename):
+            logger.error("PSF file not found: {}".format(filename))
+            raise FileNotFoundError(filename)
         if filename[-5:] == ".fits":
             with fits.open(os.path.expanduser(filename)) as hdu:
                 ima = hdu[0].data
-- 
2.43.0


From b64e8aac3c97b4bcece623f45bdcb79489d90ff3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:16:40 +0000
Subject: [PATCH 32/34] fix: importing does not fail when the repository
 information cannot be read

.git is a file in worktrees and submodules, and may not be readable: the
branch and the commit are optional.
---
 exorad/__init__.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/exorad/__init__.py b/exorad/__init__.py
index 33efa29..82dbbd9 100644
--- a/exorad/__init__.py
+++ b/exorad/__init__.py
@@ -21,14 +21,15 @@ if __base_dir__ is not None and os.path.exists(
     os.path.join(__base_dir__, ".git")
 ):
     git_folder = os.path.join(__base_dir__, ".git")
-    with open(os.path.join(git_folder, "HEAD")) as fp:
-        ref = fp.read().strip()
-    ref_dir = ref[5:]
-    __branch__ = ref[16:]
+    # .git may be a file (worktrees, submodules) or not be readable
     try:
+        with open(os.path.join(git_folder, "HEAD")) as fp:
+            ref = fp.read().strip()
+        ref_dir = ref[5:]
+        __branch__ = ref[16:]
         with open(os.path.join(git_folder, ref_dir)) as fp:
             __commit__ = fp.read().strip()
-    except FileNotFoundError:
+    except (OSError, ValueError):
         __commit__ = None
 
 __title__ = "ExoRad2"
-- 
2.43.0


From f317ea2053c752daf76c3c859480faf110e0d8e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:33:16 +0000
Subject: [PATCH 33/34] fix: two runs can create the output directory at the
 same time

---
 exorad/exorad.py        | 2 +-
 exorad/utils/plotter.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/exorad/exorad.py b/exorad/exorad.py
index 4608199..d39b339 100644
--- a/exorad/exorad.py
+++ b/exorad/exorad.py
@@ -79,7 +79,7 @@ def standard_pipeline(
 
         out_dir = pathlib.Path(output).parent.absolute()
         if not os.path.exists(out_dir):
-            os.makedirs(out_dir)
+            os.makedirs(out_dir, exist_ok=True)
             logger.info("output directory created")
         logger.info("output directory set as {}".format(out_dir))
         for input_file in (options, target_list):
diff --git a/exorad/utils/plotter.py b/exorad/utils/plotter.py
index 6f44238..a3467a1 100644
--- a/exorad/utils/plotter.py
+++ b/exorad/utils/plotter.py
@@ -483,7 +483,7 @@ def main():
         setLogLevel(logging.DEBUG)
 
     if not os.path.exists(args.out):
-        os.makedirs(args.out)
+        os.makedirs(args.out, exist_ok=True)
         logger.info("output directory created")
 
     logger.info("reading {}".format(args.input))
-- 
2.43.0


From bbc0f1e7960628fd5a9c2af7b9f9398f0ec09961 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:34:47 +0000
Subject: [PATCH 34/34] fix: what could not be read of a saved payload was left
 out silently

---
 exorad/output/hdf5/util.py        | 4 +++-
 exorad/tasks/instrumentHandler.py | 3 ++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/exorad/output/hdf5/util.py b/exorad/output/hdf5/util.py
index 306f87d..f5f6c20 100644
--- a/exorad/output/hdf5/util.py
+++ b/exorad/output/hdf5/util.py
@@ -65,7 +65,9 @@ def hdf5_group_to_dict(h5_group):
         A dictionary representing the HDF5 group structure
     """
     result = {}
-    for key, item in h5_group.items():
+    for key in h5_group.keys():
+        # items() gives None for what cannot be read
+        item = h5_group[key]
         if isinstance(item, h5py.Dataset):
             # Convert dataset to numpy array and store
             result[key] = item[()]  # This reads the dataset into a numpy array
diff --git a/exorad/tasks/instrumentHandler.py b/exorad/tasks/instrumentHandler.py
index f642e50..06cd3d5 100644
--- a/exorad/tasks/instrumentHandler.py
+++ b/exorad/tasks/instrumentHandler.py
@@ -187,7 +187,8 @@ class LoadPayload(Task):
     def execute(self):
         payload_dir = self.get_task_param("input")["payload"]
         # files written by previous versions have no mark
-        if not getattr(payload_dir, "attrs", {}).get("complete", True):
+        attrs = getattr(payload_dir, "attrs", {})
+        if "complete" in attrs and not attrs["complete"]:
             self.error("the payload was not completely saved")
             raise OSError("the payload was not completely saved")
         payload = load(payload_dir["payload description"])
-- 
2.43.0

