From 49a9353b5bdf1a1c748279e1830f7f95505835bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:40 +0000
Subject: [PATCH 01/24] fix: report warnings if Sofa.verify stops because of
 wrong data types

---
 sofar/sofa.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/sofar/sofa.py b/sofar/sofa.py
index d629feb..4c45b3c 100644
--- a/sofar/sofa.py
+++ b/sofar/sofa.py
@@ -1064,11 +1064,10 @@ class Sofa():
             error_msg += current_error
 
         # if an error ocurred up to here, it has to be handled. Otherwise
-        # detecting the dimensions might fail. Warnings are not reported until
-        # the end
+        # detecting the dimensions might fail.
         if error_msg != "\nERRORS\n------\n" and issue_handling != "ignore":
             _, issues = self._verify_handle_issues(
-                    "\nWARNINGS\n--------\n", error_msg, issue_handling)
+                    warning_msg, error_msg, issue_handling)
 
             if issue_handling == "print":
                 return
-- 
2.43.0


From bf2a213af4112af47da1c4372daf88d2abb3f960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:40 +0000
Subject: [PATCH 02/24] fix: return warnings from Sofa.verify if no errors were
 detected

---
 sofar/sofa.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/sofar/sofa.py b/sofar/sofa.py
index 4c45b3c..dcaf359 100644
--- a/sofar/sofa.py
+++ b/sofar/sofa.py
@@ -1414,14 +1414,11 @@ class Sofa():
         # ---------------------------------------------------------------------
         # 9. handle warnings and errors
         if issue_handling != "ignore":
-            error_occurred, issues = self._verify_handle_issues(
+            _, issues = self._verify_handle_issues(
                     warning_msg, error_msg, issue_handling)
 
-            if error_occurred:
-                if issue_handling == "print":
-                    return
-                elif issue_handling == "return":
-                    return issues
+            if issue_handling == "return":
+                return issues
 
     @staticmethod
     def _verify_value(test, ref, unit_aliases, key):
-- 
2.43.0


From 0967d2abd9f8bf39bc7dbb411551077c10a49674 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:40 +0000
Subject: [PATCH 03/24] fix: leave Sofa object unchanged and protected if
 adding data fails

---
 sofar/sofa.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/sofar/sofa.py b/sofar/sofa.py
index dcaf359..e6942cd 100644
--- a/sofar/sofa.py
+++ b/sofar/sofa.py
@@ -705,6 +705,14 @@ class Sofa():
         # create custom API if it not exists
         self.protected = False
 
+        # add attribute to object (done first, because it fails for values
+        # that can not be converted)
+        try:
+            setattr(self, key, value)
+        except Exception:
+            self.protected = True
+            raise
+
         # lower case letters to indicate custom dimensions
         if dimensions is not None:
             dimensions = [d.upper() if d.upper() in "ERMNCIS" else d.lower()
@@ -724,8 +732,6 @@ class Sofa():
                 "comment": ""}
             self._convention[key] = self._custom[key]
 
-        # add attribute to object
-        setattr(self, key, value)
         self.protected = True
 
     def upgrade_convention(self, target=None, verify='auto'):
-- 
2.43.0


From ac43ee14d3bfda68e0a4cf9e4cc0c5c28c999cd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:40 +0000
Subject: [PATCH 04/24] fix: update read only attributes if the convention of
 an object changes

---
 sofar/sofa.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/sofar/sofa.py b/sofar/sofa.py
index e6942cd..0d5a101 100644
--- a/sofar/sofa.py
+++ b/sofar/sofa.py
@@ -98,9 +98,7 @@ class Sofa():
             self._convention = self._load_convention(convention, version)
 
             # update read only attributes
-            self._read_only_attr = [
-                key for key in self._convention.keys()
-                if self._read_only(self._convention[key]["flags"])]
+            self._update_read_only_attr()
 
             # add attributes with default values
             self._convention_to_sofa(mandatory)
@@ -1650,6 +1648,7 @@ class Sofa():
         convention = self._load_convention(
             c_current, v_current)
         self._convention = convention
+        self._update_read_only_attr()
 
         if hasattr(self, "_custom"):
             # check of custom fields can be removed
@@ -1661,6 +1660,12 @@ class Sofa():
             for key in self._custom:
                 self._convention[key] = self._custom[key]
 
+    def _update_read_only_attr(self):
+        """Update the list of attributes the convention flags as read only."""
+        self._read_only_attr = [
+            key for key in self._convention.keys()
+            if self._read_only(self._convention[key]["flags"])]
+
     def _load_convention(self, convention, version):
         """
         Load SOFA convention from json file.
-- 
2.43.0


From eb34ad9fa8cf5df16d5ccbe535d990f56cab6ac2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:56 +0000
Subject: [PATCH 05/24] fix: handle versions without upgrade rules in
 Sofa.upgrade_convention

---
 sofar/sofa.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sofar/sofa.py b/sofar/sofa.py
index 0d5a101..c03f4aa 100644
--- a/sofar/sofa.py
+++ b/sofar/sofa.py
@@ -810,6 +810,10 @@ class Sofa():
                         print(upgrades)
                         return targets
                     break
+            else:
+                print((f"Convention {convention_current} v{version_current} is"
+                       " outdated but is missing upgrade rules"))
+                return
         else:
             print((f"Convention {convention_current} v{version_current} "
                    "is up to date"))
-- 
2.43.0


From 1012b885c781c33a6835523e9218e79b3837fbb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:15 +0000
Subject: [PATCH 06/24] fix: skip data that is not contained in
 Sofa.upgrade_convention

---
 sofar/sofa.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/sofar/sofa.py b/sofar/sofa.py
index c03f4aa..337bd3d 100644
--- a/sofar/sofa.py
+++ b/sofar/sofa.py
@@ -848,6 +848,9 @@ class Sofa():
             source_sofar = source.replace(".", '_').replace(":", "_")
             target_sofar = move["target"].replace(".", '_').replace(":", "_")
             move_info = f"- Moving {source_sofar} to {target_sofar}."
+            # nothing to move if optional data are not contained
+            if not hasattr(self, source_sofar):
+                continue
             # get data
             data = getattr(self, source_sofar)
             # delete from Sofa object
@@ -880,6 +883,9 @@ class Sofa():
         # remove data
         for target in upgrade["remove"]:
             target_sofar = target.replace(".", '_').replace(":", "_")
+            # nothing to delete if optional data are not contained
+            if not hasattr(self, target_sofar):
+                continue
             delattr(self, target_sofar)
             print(f"- Deleting {target_sofar}.")
 
-- 
2.43.0


From 3a016a1fddb433dd1a9c83c67f5dcd2e939b6e33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:15 +0000
Subject: [PATCH 07/24] fix: switch protection on again if
 Sofa.upgrade_convention fails

---
 sofar/sofa.py | 35 ++++++++++++++++++++++-------------
 1 file changed, 22 insertions(+), 13 deletions(-)

diff --git a/sofar/sofa.py b/sofar/sofa.py
index 337bd3d..225437d 100644
--- a/sofar/sofa.py
+++ b/sofar/sofa.py
@@ -832,13 +832,34 @@ class Sofa():
                f"{convention_target} v{version_target} (SOFA version "
                f"{sofa_version_current} to {sofa_version_target})"))
 
+        self.protected = False
+        try:
+            self._apply_upgrade(upgrade)
+        finally:
+            self.protected = True
+
+        # display general message
+        if upgrade["message"] is not None:
+            print(upgrade["message"])
+
+        # set default for verify
+        if verify == 'auto':
+            version = self.GLOBAL_SOFAConventionsVersion
+            verify = True if parse(version) >= parse('1.0') else False
+        if verify:
+            self.verify()
+
+    def _apply_upgrade(self, upgrade):
+        """
+        Apply an upgrade rule, used in Sofa.upgrade_convention after the target
+        convention was loaded.
+        """
         # upgrade convention
         keys = ["GLOBAL_SOFAConventions",
                 "GLOBAL_SOFAConventionsVersion",
                 "GLOBAL_Version",
                 "GLOBAL_DataType"]
 
-        self.protected = False
         for key in keys:
             setattr(self, key, self._convention[key]["default"])
 
@@ -894,18 +915,6 @@ class Sofa():
 
         # check for missing mandatory data
         self.add_missing(True, False)
-        self.protected = True
-
-        # display general message
-        if upgrade["message"] is not None:
-            print(upgrade["message"])
-
-        # set default for verify
-        if verify == 'auto':
-            version = self.GLOBAL_SOFAConventionsVersion
-            verify = True if parse(version) >= parse('1.0') else False
-        if verify:
-            self.verify()
 
     def verify(self, issue_handling="raise", mode="write"):
         """
-- 
2.43.0


From 6bef0b07414bc44059ca11e242ca59208942fd9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:40 +0000
Subject: [PATCH 08/24] fix: list dimensions of data with unknown data type

---
 sofar/sofa.py       | 2 ++
 sofar/sofastream.py | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/sofar/sofa.py b/sofar/sofa.py
index 225437d..8fe08b1 100644
--- a/sofar/sofa.py
+++ b/sofar/sofa.py
@@ -225,6 +225,8 @@ class Sofa():
             N_verbose = "frequencies"
         elif self.GLOBAL_DataType.startswith("SOS"):
             N_verbose = "SOS coefficients"
+        else:
+            N_verbose = "data points"
 
         # get verbose description for dimensions R and E
         R_verbose = "receiver spherical harmonics coefficients" if \
diff --git a/sofar/sofastream.py b/sofar/sofastream.py
index 72fdd45..0d614fa 100644
--- a/sofar/sofastream.py
+++ b/sofar/sofastream.py
@@ -158,6 +158,8 @@ class SofaStream():
             N_verbose = "frequencies"
         elif self._file.getncattr('DataType').startswith("SOS"):
             N_verbose = "SOS coefficients"
+        else:
+            N_verbose = "data points"
 
         # get verbose description for dimensions R and E
         R_verbose = (
-- 
2.43.0


From 0350da15758e042603bfbd79e26da25484fd5098 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:40 +0000
Subject: [PATCH 09/24] fix: detect different shapes and compare any text in
 equals

---
 sofar/utils.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/sofar/utils.py b/sofar/utils.py
index db70d72..59ac649 100644
--- a/sofar/utils.py
+++ b/sofar/utils.py
@@ -212,17 +212,21 @@ def equals(sofa_a, sofa_b, verbose=True, exclude=None):
         elif type_a == "double" and type_b == "double":
 
             try:
+                # arrays of different shape are not identical, even if their
+                # values can be broadcast
+                npt.assert_equal(np.shape(np.squeeze(a)),
+                                 np.shape(np.squeeze(b)))
                 npt.assert_allclose(np.squeeze(a), np.squeeze(b))
-            except AssertionError:
+            except (AssertionError, TypeError, ValueError):
                 is_identical = _equals_raise_warning(
                     "not identical: different values for {key}", verbose)
 
         # compare string variables
         elif type_a == "string" and type_b == "string":
-            try:
-                assert np.all(
-                    np.squeeze(a).astype("S") == np.squeeze(b).astype("S"))
-            except AssertionError:
+            # byte strings are utf-8 encoded
+            a, b = [np.char.decode(s, "utf-8") if s.dtype.kind == "S"
+                    else s.astype("U") for s in (np.squeeze(a), np.squeeze(b))]
+            if not np.array_equal(a, b):
                 is_identical = _equals_raise_warning(
                     "not identical: different values for {key}", verbose)
         else:
-- 
2.43.0


From 107e586b8cf4f8ce1d4991d8b59fa511f3467adb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:40 +0000
Subject: [PATCH 10/24] fix: check every convention in _check_congruency

---
 sofar/update_conventions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sofar/update_conventions.py b/sofar/update_conventions.py
index df64108..af8d302 100644
--- a/sofar/update_conventions.py
+++ b/sofar/update_conventions.py
@@ -412,13 +412,13 @@ def _check_congruency(save_dir=None, branch="master"):
 
     # check if lists are identical. Remove items not contained in both lists
     report = ""
-    for convention in sofaconventions:
+    for convention in sofaconventions.copy():
         if convention.startswith(("General_", "GeneralString_")):
             sofaconventions.remove(convention)
         elif convention not in sofatoolbox:
             sofaconventions.remove(convention)
             report += (f"- {convention} is missing in SOFAtoolbox\n")
-    for convention in sofatoolbox:
+    for convention in sofatoolbox.copy():
         if convention.startswith(("General_", "GeneralString_")):
             sofatoolbox.remove(convention)
         elif convention not in sofaconventions:
-- 
2.43.0


From 4d1f3ff7d00b8c444ae3a80f3502594cef91fb2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:40 +0000
Subject: [PATCH 11/24] fix: do not install error pages in update_conventions

---
 sofar/update_conventions.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/sofar/update_conventions.py b/sofar/update_conventions.py
index af8d302..1062909 100644
--- a/sofar/update_conventions.py
+++ b/sofar/update_conventions.py
@@ -58,13 +58,15 @@ def update_conventions(conventions_path=None, assume_yes=False):
     print(f"Reading SOFA conventions from {urls[0]} ...")
 
     # get file names of conventions from sofaconventions.org
-    page = requests.get(urls[0]).text
-    soup = BeautifulSoup(page, 'html.parser')
+    page = requests.get(urls[0])
+    page.raise_for_status()
+    soup = BeautifulSoup(page.text, 'html.parser')
     standardized = [os.path.split(node.get('href'))[1]
                     for node in soup.find_all('a')
                     if node.get('href').endswith(ext)]
-    page = requests.get(urls[1]).text
-    soup = BeautifulSoup(page, 'html.parser')
+    page = requests.get(urls[1])
+    page.raise_for_status()
+    soup = BeautifulSoup(page.text, 'html.parser')
     deprecated = [os.path.split(node.get('href'))[1]
                   for node in soup.find_all('a')
                   if node.get('href').endswith(ext)]
@@ -107,6 +109,7 @@ def update_conventions(conventions_path=None, assume_yes=False):
 
             # download SOFA convention definitions to package directory
             data = requests.get(url)
+            data.raise_for_status()
             # remove windows style line breaks and trailing tabs
             data = data.content.replace(b"\r\n", b"\n").replace(b"\t\n", b"\n")
 
-- 
2.43.0


From 6d28c005b4da3f0a1e06bb704acbd5ceee328c07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:40 +0000
Subject: [PATCH 12/24] fix: never lose a convention that is deprecated by
 update_conventions

---
 sofar/update_conventions.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/sofar/update_conventions.py b/sofar/update_conventions.py
index 1062909..ee80be2 100644
--- a/sofar/update_conventions.py
+++ b/sofar/update_conventions.py
@@ -179,14 +179,16 @@ def update_conventions(conventions_path=None, assume_yes=False):
                 shutil.copy(os.path.join(temp, convention),
                             os.path.join(conventions_path, convention))
             for convention in deprecate:
-                os.remove(os.path.join(conventions_path, convention))
-                os.remove(
-                    os.path.join(conventions_path, f"{convention[:-3]}json"))
                 shutil.copy(
                     os.path.join(temp, 'deprecated', convention),
                     os.path.join(conventions_path, 'deprecated', convention))
             # compile json files from csv file
             _compile_conventions(conventions_path)
+            # remove deprecated conventions after they were compiled
+            for convention in deprecate:
+                os.remove(os.path.join(conventions_path, convention))
+                os.remove(
+                    os.path.join(conventions_path, f"{convention[:-3]}json"))
             print("... done.")
         else:
             print("... conventions already up to date.")
-- 
2.43.0


From 4f08668f71b357508f9b52415d21af2544ceff1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:40 +0000
Subject: [PATCH 13/24] fix: write the output of inspect independent of the
 locale

---
 sofar/sofa.py       | 2 +-
 sofar/sofastream.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/sofar/sofa.py b/sofar/sofa.py
index 8fe08b1..26b557f 100644
--- a/sofar/sofa.py
+++ b/sofar/sofa.py
@@ -485,7 +485,7 @@ class Sofa():
 
         # write to text file
         if file is not None:
-            with open(file, 'w') as f_id:
+            with open(file, 'w', encoding='utf-8') as f_id:
                 f_id.write(info_str + "\n")
 
         # output to console
diff --git a/sofar/sofastream.py b/sofar/sofastream.py
index 0d614fa..69ebd9e 100644
--- a/sofar/sofastream.py
+++ b/sofar/sofastream.py
@@ -296,7 +296,7 @@ class SofaStream():
 
         # write to text file
         if file is not None:
-            with open(file, 'w') as f_id:
+            with open(file, 'w', encoding='utf-8') as f_id:
                 f_id.write(info_str + "\n")
 
         # print to console
-- 
2.43.0


From 437448c42aca2dcfd77df5ea4a0a43b16ebd4643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:40 +0000
Subject: [PATCH 14/24] fix: raise AttributeError for any name that SofaStream
 does not contain

---
 sofar/sofastream.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/sofar/sofastream.py b/sofar/sofastream.py
index 69ebd9e..4ac186f 100644
--- a/sofar/sofastream.py
+++ b/sofar/sofastream.py
@@ -88,6 +88,12 @@ class SofaStream():
         Executed when accessing data within a with statement
         (see documentation above).
         """
+        # the file has to be open (also avoids looking up self._file again)
+        file = self.__dict__.get('_file')
+        if file is None or not file.isopen():
+            raise AttributeError(
+                f"{name} can not be read, because the SOFA-file is not open")
+
         # get netCDF4-attributes and -variable-keys from SOFA-file
         dset_variables = np.array(list(self._file.variables.keys()))
         dset_attributes = np.asarray(self._file.ncattrs())
@@ -99,7 +105,7 @@ class SofaStream():
         # Handle variable-attributes (e.g. '_Units' and '_Type')
         var_attr = None
         if "_" in name_netcdf:
-            name_netcdf, var_attr = name_netcdf.split('_')
+            name_netcdf, var_attr = name_netcdf.split('_', 1)
 
         # get value if passed attribute points to a netCDF4-variable
         if name_netcdf in dset_variables:
-- 
2.43.0


From 7414b3da7e8686aea987f9a96cee1f65e47e99e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:40 +0000
Subject: [PATCH 15/24] fix: resolve names in SofaStream as in Sofa objects

---
 sofar/sofastream.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/sofar/sofastream.py b/sofar/sofastream.py
index 4ac186f..837341c 100644
--- a/sofar/sofastream.py
+++ b/sofar/sofastream.py
@@ -99,23 +99,23 @@ class SofaStream():
         dset_attributes = np.asarray(self._file.ncattrs())
 
         # remove delimiter from passed sofar-attribute
-        name_netcdf = name.replace(
-            'GLOBAL_', '').replace('Data_', 'Data.')
+        is_global = name.startswith('GLOBAL_')
+        name_netcdf = name[7:] if is_global else name.replace('Data_', 'Data.')
 
         # Handle variable-attributes (e.g. '_Units' and '_Type')
         var_attr = None
-        if "_" in name_netcdf:
+        if "_" in name_netcdf and not is_global:
             name_netcdf, var_attr = name_netcdf.split('_', 1)
 
         # get value if passed attribute points to a netCDF4-variable
-        if name_netcdf in dset_variables:
+        if name_netcdf in dset_variables and not is_global:
             # get variable from SOFA-file
             self._data = self._file.variables[name_netcdf]
             if var_attr is not None:
-                self._data = getattr(self._data, var_attr)
+                self._data = self._data.getncattr(var_attr)
 
         # get value if passed attribute points to a netCDF4-attribute
-        elif name_netcdf in dset_attributes:
+        elif name_netcdf in dset_attributes and is_global:
             # get attribute value from SOFA-file
             self._data = self._file.getncattr(name_netcdf)
 
-- 
2.43.0


From 25c569349332ea331775b80a9feda888f75f4053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:53 +0000
Subject: [PATCH 16/24] fix: write and read string variables with the same
 encoding

---
 sofar/io.py   | 10 +++++++---
 sofar/sofa.py | 10 +++++++---
 2 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/sofar/io.py b/sofar/io.py
index 558622a..29a1675 100644
--- a/sofar/io.py
+++ b/sofar/io.py
@@ -2,7 +2,7 @@
 import contextlib
 import os
 import numpy as np
-from netCDF4 import Dataset, chartostring, stringtochar
+from netCDF4 import Dataset, chartostring
 import warnings
 import pathlib
 from packaging.version import parse
@@ -330,7 +330,8 @@ def _write_sofa(filename: str, sofa: sf.Sofa, compression=4, verify=True):
             if dtype == "f8":
                 tmp_var[:] = value
             else:
-                tmp_var[:] = stringtochar(value, encoding='utf-8')
+                # split strings into their (utf-8 encoded) characters
+                tmp_var[:] = value.view("S1").reshape(value.shape + (-1, ))
 
             # write variable attributes
             sub_keys = [k for k in all_keys if k.startswith(f"{key}_")]
@@ -376,6 +377,9 @@ def _format_value_for_netcdf(value, key, dtype, dimensions, S):
         value = _atleast_nd(value, len(dimensions))
         netcdf_dtype = "f8"
     elif dtype == "string":
+        value = np.asarray(value)
+        if value.dtype.kind != "S":
+            value = np.char.encode(value, "utf-8")
         value = np.array(value, dtype=f"S{str(S)}")
         value = _atleast_nd(value, len(dimensions))
         netcdf_dtype = 'S1'
@@ -412,7 +416,7 @@ def _format_value_from_netcdf(value, key):
         # string arrays are stored in masked arrays with empty strings '' being
         # masked. Convert to regular arrays with unmasked empty strings
         if str(value.dtype)[1] == "S":
-            value = chartostring(value, encoding="ascii")
+            value = chartostring(value, encoding="utf-8")
         value = np.atleast_1d(value).astype("U")
     else:
         raise TypeError(
diff --git a/sofar/sofa.py b/sofar/sofa.py
index 26b557f..396c7de 100644
--- a/sofar/sofa.py
+++ b/sofar/sofa.py
@@ -1800,14 +1800,18 @@ class Sofa():
         arrays.
         """
 
+        # strings are utf-8 encoded when writing
+        def size(s):
+            return len(s.encode("utf-8") if isinstance(s, str) else s)
+
         if isinstance(value, str):
-            S = len(value)
+            S = size(value)
             shape = (1, 1)
         elif isinstance(value, list):
-            S = len(max(value, key=len))
+            S = max(size(v) for v in value)
             shape = np.array(value).shape
         elif isinstance(value, np.ndarray):
-            S = max(np.vectorize(len)(value))
+            S = np.max(np.vectorize(size)(value))
             shape = value.shape
         else:
             raise TypeError((f"{key} must be a string, numpy string array, "
-- 
2.43.0


From f7706a924ad87cb2ab9d779015f63e37cfff2df0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:08 +0000
Subject: [PATCH 17/24] fix: resolve variables whose name ends with Data in
 SofaStream

---
 sofar/sofastream.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sofar/sofastream.py b/sofar/sofastream.py
index 837341c..ccbceed 100644
--- a/sofar/sofastream.py
+++ b/sofar/sofastream.py
@@ -100,7 +100,9 @@ class SofaStream():
 
         # remove delimiter from passed sofar-attribute
         is_global = name.startswith('GLOBAL_')
-        name_netcdf = name[7:] if is_global else name.replace('Data_', 'Data.')
+        name_netcdf = name[7:] if is_global else name
+        if name.startswith('Data_'):
+            name_netcdf = name.replace('Data_', 'Data.', 1)
 
         # Handle variable-attributes (e.g. '_Units' and '_Type')
         var_attr = None
-- 
2.43.0


From cbd82475b7b046baf3ca945772795bfa4756fc42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:41 +0000
Subject: [PATCH 18/24] fix: remove the definition of deleted custom entries
 from the convention

---
 sofar/sofa.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sofar/sofa.py b/sofar/sofa.py
index 396c7de..3acf380 100644
--- a/sofar/sofa.py
+++ b/sofar/sofa.py
@@ -174,6 +174,7 @@ class Sofa():
             if hasattr(self, "_custom"):
                 if name in self._custom:
                     self._custom.pop(name)
+                    self._convention.pop(name, None)
         else:
             raise TypeError(
                 f"{name} is a mandatory attribute that can not be deleted")
-- 
2.43.0


From cdda56937b7974e5364bdcfe130650bbc02d870f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:15 +0000
Subject: [PATCH 19/24] fix: reject data with extra non-singleton dimensions in
 Sofa.verify

---
 sofar/sofa.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sofar/sofa.py b/sofar/sofa.py
index 3acf380..6348e94 100644
--- a/sofar/sofa.py
+++ b/sofar/sofa.py
@@ -1274,7 +1274,9 @@ class Sofa():
 
                 # get shape for comparison to correct length by cropping and
                 # appending singleton dimensions if required
-                shape_compare = shape_act[:len(shape_ref)]
+                shape_compare = shape_act
+                if all(n == 1 for n in shape_act[len(shape_ref):]):
+                    shape_compare = shape_act[:len(shape_ref)]
                 for _ in range(len(shape_ref) - len(shape_compare)):
                     shape_compare += (1, )
 
-- 
2.43.0


From 0c1fb2b2806c2d5c3a4a87bebaea80f0cd0d230e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:57 +0000
Subject: [PATCH 20/24] fix: do not raise in Sofa.verify if issues are ignored

---
 sofar/sofa.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sofar/sofa.py b/sofar/sofa.py
index 6348e94..07182bc 100644
--- a/sofar/sofa.py
+++ b/sofar/sofa.py
@@ -1091,7 +1091,10 @@ class Sofa():
 
         # if an error ocurred up to here, it has to be handled. Otherwise
         # detecting the dimensions might fail.
-        if error_msg != "\nERRORS\n------\n" and issue_handling != "ignore":
+        if error_msg != "\nERRORS\n------\n":
+            if issue_handling == "ignore":
+                return
+
             _, issues = self._verify_handle_issues(
                     warning_msg, error_msg, issue_handling)
 
-- 
2.43.0


From 70620826ae43a4b53a9a2b7b11afa7b33fdb166d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:34 +0000
Subject: [PATCH 21/24] fix: inspect does not label shapes with dimensions of
 former data

If verify stopped early, _dimensions and _api of a former call were kept
and inspect showed the shapes of the current data with outdated names, or
raised a KeyError for variables of wrong shape.
---
 sofar/sofa.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/sofar/sofa.py b/sofar/sofa.py
index 07182bc..fd57047 100644
--- a/sofar/sofa.py
+++ b/sofar/sofa.py
@@ -463,9 +463,9 @@ class Sofa():
                 info_str += str(value) + "\n"
             # information for variables
             else:
-                # get shape and dimension
+                # get shape and dimension (unknown if they could not be verified)
                 shape = value.shape
-                dimension = self._dimensions[key]
+                dimension = self._dimensions.get(key, "?" * len(shape))
 
                 # pad shape if required (trailing single dimensions are
                 # discarded following the numpy default)
@@ -1007,6 +1007,12 @@ class Sofa():
         # 0. update the convention
         self._reset_convention()
 
+        # initialize required API fields (forget dimensions of former data)
+        self.protected = False
+        self._dimensions = {}
+        self._api = {}
+        self.protected = True
+
         # ---------------------------------------------------------------------
         # 1. check if the mandatory attributes are contained
         missing = ""
@@ -1201,12 +1207,6 @@ class Sofa():
         # ---------------------------------------------------------------------
         # 4. Get dimensions (E, R, M, N, S, c, I, and custom)
 
-        # initialize required API fields
-        self.protected = False
-        self._dimensions = {}
-        self._api = {}
-        self.protected = True
-
         # get keys for checking the dimensions (all SOFA variables)
         keys = [key for key in self.__dict__.keys()
                 if key in self._convention
-- 
2.43.0


From 457348a5b975ac981ba65f0c41abd5283024fc5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:38:06 +0000
Subject: [PATCH 22/24] fix: do not write variables as attributes of a variable
 whose name they start with

---
 sofar/io.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sofar/io.py b/sofar/io.py
index 29a1675..ba21a29 100644
--- a/sofar/io.py
+++ b/sofar/io.py
@@ -334,7 +334,8 @@ def _write_sofa(filename: str, sofa: sf.Sofa, compression=4, verify=True):
                 tmp_var[:] = value.view("S1").reshape(value.shape + (-1, ))
 
             # write variable attributes
-            sub_keys = [k for k in all_keys if k.startswith(f"{key}_")]
+            sub_keys = [k for k in all_keys if k.startswith(f"{key}_")
+                        and sofa._convention[k]["type"] == "attribute"]
             for sub_key in sub_keys:
                 setattr(tmp_var, sub_key[len(key)+1:],
                         str(getattr(sofa, sub_key)))
-- 
2.43.0


From 14ced56a2274e421162f83d5f61025f356295615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:47:31 +0000
Subject: [PATCH 23/24] fix: refuse names of variables that are not restored
 from files

---
 sofar/sofa.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sofar/sofa.py b/sofar/sofa.py
index fd57047..c6143f8 100644
--- a/sofar/sofa.py
+++ b/sofar/sofa.py
@@ -671,6 +671,9 @@ class Sofa():
                     name[:name.rindex("_")] not in self._convention:
                 raise ValueError((f"Adding Attribute {name} requires "
                                   f"variable {name[:name.rindex('_')]}"))
+        if dtype != "attribute" and ("." in name or "/" in name):
+            raise ValueError(("points '.' and slashes '/' are only allowed in "
+                              "the names of attributes"))
         if dimensions is None and dtype != "attribute":
             raise ValueError(("dimensions must be provided for entries of "
                               "dtype double and string"))
-- 
2.43.0


From 1cc7bc7601246e6dfce62ac671833873f76f445d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:17:57 +0000
Subject: [PATCH 24/24] fix: equals does not take missing data for any value

---
 sofar/utils.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sofar/utils.py b/sofar/utils.py
index 59ac649..2779cbd 100644
--- a/sofar/utils.py
+++ b/sofar/utils.py
@@ -212,6 +212,9 @@ def equals(sofa_a, sofa_b, verbose=True, exclude=None):
         elif type_a == "double" and type_b == "double":
 
             try:
+                # missing data (masked values) match missing data only
+                npt.assert_equal(np.ma.getmaskarray(np.squeeze(a)),
+                                 np.ma.getmaskarray(np.squeeze(b)))
                 # arrays of different shape are not identical, even if their
                 # values can be broadcast
                 npt.assert_equal(np.shape(np.squeeze(a)),
-- 
2.43.0

