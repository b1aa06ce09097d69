From 037163e4d509ec6e68416265abf3c36a7e2a6638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:26 +0000
Subject: [PATCH 01/53] fix: save parameter, period, YAML, INI and table files
 atomically

Every writer truncated the target before writing, so a disk error or a crash
while saving destroyed the data that was there.
---
 bicycleparameters/io.py             | 59 ++++++++++++++++++++++-------
 bicycleparameters/parameter_sets.py |  7 ++--
 bicycleparameters/tables.py         |  6 +--
 3 files changed, 52 insertions(+), 20 deletions(-)

diff --git a/bicycleparameters/io.py b/bicycleparameters/io.py
index dcb3b80..52161c3 100644
--- a/bicycleparameters/io.py
+++ b/bicycleparameters/io.py
@@ -2,11 +2,49 @@
 
 import re
 import os
+import shutil
+import uuid
 import numpy as np
 from uncertainties import ufloat_fromstr
 from scipy.io import loadmat
 
 
+def _write_text(path, text):
+    '''Writes text to a file such that the file holds either its prior or the
+    complete new content, even if the writing fails or is interrupted.
+
+    Parameters
+    ----------
+    path : string
+        The path to the file to create or replace.
+    text : string
+        The complete content of the file.
+
+    '''
+    path = os.path.realpath(path)
+    if os.path.exists(path) and not os.path.isfile(path):
+        # a device, a pipe, etc. can't be replaced
+        with open(path, 'w') as f:
+            f.write(text)
+        return
+    head, tail = os.path.split(path)
+    tmp = os.path.join(head, '.{}.tmp'.format(uuid.uuid4().hex))
+    try:
+        with open(tmp, 'x') as f:
+            f.write(text)
+            f.flush()
+            os.fsync(f.fileno())
+        if os.path.exists(path):
+            shutil.copymode(path, tmp)
+        os.replace(tmp, path)
+    except BaseException:
+        try:
+            os.remove(tmp)
+        except OSError:
+            pass
+        raise
+
+
 def filename_to_dict(filename):
     '''Returns a dictionay of values based on the pendulum data file name.
 
@@ -147,20 +185,17 @@ def write_parameter_text_file(pathToTxtFile, parDict):
         while ans != 'y' and ans != 'n':
             ans = input("%s exists already. Are you sure you want"
                         " to overwrite it? (y or n)\n" % pathToTxtFile)
-        if ans == 'y':
-            f = open(pathToTxtFile, 'w')
     except IOError:
-        f = open(pathToTxtFile, 'w')
+        ans = 'y'
 
-    try:
-        f
-        keys = sorted(parDict.keys())
-        for key in keys:
-            f.write(key + ' = ' + str(parDict[key]) + '\n')
-        f.close()
+    if ans == 'y':
+        text = ''
+        for key in sorted(parDict.keys()):
+            text += key + ' = ' + str(parDict[key]) + '\n'
+        _write_text(pathToTxtFile, text)
         print("Parameters saved to %s" % pathToTxtFile)
         return True
-    except UnboundLocalError:
+    else:
         print("%s was not saved." % pathToTxtFile)
         return False
 
@@ -214,6 +249,4 @@ def write_periods_to_file(pathToRawFile, mp):
         withPeriods += k + ' = ' + str(mp[k]) + '\n'
 
     # write it to the file
-    f = open(pathToRawFile, 'w')
-    f.write(withPeriods)
-    f.close()
+    _write_text(pathToRawFile, withPeriods)
diff --git a/bicycleparameters/parameter_sets.py b/bicycleparameters/parameter_sets.py
index 7f2d7f9..c7a9972 100644
--- a/bicycleparameters/parameter_sets.py
+++ b/bicycleparameters/parameter_sets.py
@@ -10,6 +10,7 @@ from dtk.bicycle import benchmark_to_moore
 from .com import total_com
 from .geometry import fundamental_geometry_plot_data
 from .conversions import _convert_principal_to_benchmark
+from .io import _write_text
 
 __all__ = [
     'Meijaard2007ParameterSet',
@@ -188,8 +189,7 @@ class ParameterSet(ABC):
             'rider': None,
             'values': self.parameters,
         }
-        with open(fname, 'w') as f:
-            yaml.dump(data, f)
+        _write_text(fname, yaml.dump(data))
 
     def to_ini(self, fname):
         """Writes parameters to file in the INI format. Metadata is not
@@ -204,8 +204,7 @@ class ParameterSet(ABC):
         text = ""
         for k, v in self.parameters.items():
             text += "{}={:1.16f}\n".format(k, v)
-        with open(fname, 'w') as f:
-            f.write(text)
+        _write_text(fname, text)
 
     def _repr_html_(self):
         opening = (r'<table><caption>{}</caption><tr><th>Variable</th>'
diff --git a/bicycleparameters/tables.py b/bicycleparameters/tables.py
index aa0c4d6..b26cb60 100644
--- a/bicycleparameters/tables.py
+++ b/bicycleparameters/tables.py
@@ -1,5 +1,7 @@
 from math import ceil
 
+from .io import _write_text
+
 
 class Table():
     """A class for generating tables of the measurment and parameter data
@@ -141,9 +143,7 @@ class Table():
         rstTable += '+'
 
         if fileName is not None:
-            f = open(fileName, 'w')
-            f.write(rstTable)
-            f.close()
+            _write_text(fileName, rstTable)
 
         return rstTable
 
-- 
2.43.0


From 542f53dc48728e57d10ed4cb2ad7bbe1f29c4358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:26 +0000
Subject: [PATCH 02/53] fix: load parameter files independent of directory
 order and debris

Backups, hidden or foreign files in the Parameters directory made the
constructor fail or replaced the bicycle's parameters, depending on the order
in which the operating system lists the directory.
---
 bicycleparameters/main.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/bicycleparameters/main.py b/bicycleparameters/main.py
index 9e6f175..fa75a72 100644
--- a/bicycleparameters/main.py
+++ b/bicycleparameters/main.py
@@ -85,12 +85,17 @@ class Bicycle(object):
         # if there are some parameter files, then load them
         if 'Parameters' in os.listdir(self.directory):
             parDir = os.path.join(self.directory, 'Parameters')
-            parFiles = os.listdir(parDir)
-            for parFile in parFiles:
+            for parFile in sorted(os.listdir(parDir)):
                 # remove the extension
-                fname = os.path.splitext(parFile)[0]
+                fname, ext = os.path.splitext(parFile)
                 # get the bike and the parameter set type
-                bike, ptype = io.space_out_camel_case(fname, output='list')
+                words = io.space_out_camel_case(fname, output='list')
+                # skip anything that isn't <bicycleName><ParameterSet>.txt,
+                # e.g. backups, hidden files, and directories
+                if (ext != '.txt' or len(words) != 2 or
+                        words[0] != bicycleName):
+                    continue
+                ptype = words[1]
                 # load the parameters
                 pathToFile = os.path.join(parDir, parFile)
                 self.parameters[ptype] = io.load_parameter_text_file(
-- 
2.43.0


From 53f18659355c0ce5e75893236861ab41b1581650 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:14 +0000
Subject: [PATCH 03/53] fix: keep the periods in the raw data file that were
 not recalculated

write_periods_to_file() removed all of the T entries and added only those that
have a pendulum recording. It also joined the first period to the last
measurement if the file didn't end with a newline.
---
 bicycleparameters/io.py | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/bicycleparameters/io.py b/bicycleparameters/io.py
index 52161c3..5b3174e 100644
--- a/bicycleparameters/io.py
+++ b/bicycleparameters/io.py
@@ -229,21 +229,23 @@ def write_periods_to_file(pathToRawFile, mp):
     pathToRawFile : string
         The path to the <bicycle name>Measured.txt file
     mp : dictionary
-        The measured parameters dictionary. Should contain complete period
-        data.
+        The measured parameters dictionary. The periods in the file that are
+        not in this dictionary are kept.
 
     '''
 
-    # clear any period data from the file
-    f = open(pathToRawFile, 'r')
-    baseData = ''
-    for line in f:
-        if not line.startswith('T'):
-            baseData += line
-    f.close()
-    # add the periods to the base data
     periodKeys = [x for x in mp.keys() if x.startswith('T')]
     periodKeys.sort()
+    # clear the period data that will be rewritten from the file
+    baseData = ''
+    with open(pathToRawFile, 'r') as f:
+        for line in f:
+            key = line.split('#')[0].split('=')[0].strip()
+            if key not in periodKeys:
+                baseData += line
+    if baseData and not baseData.endswith('\n'):
+        baseData += '\n'
+    # add the periods to the base data
     withPeriods = baseData
     for k in periodKeys:
         withPeriods += k + ' = ' + str(mp[k]) + '\n'
-- 
2.43.0


From ceb6306bb071a6e6572a8e9376b5f2de37fd6002 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:57 +0000
Subject: [PATCH 04/53] fix: ask before overwriting a parameter file that can't
 be opened

An existing file for which open() failed (permissions, I/O error, too many open
files) was replaced without asking. File names without a directory work too.
---
 bicycleparameters/io.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/bicycleparameters/io.py b/bicycleparameters/io.py
index 5b3174e..be81629 100644
--- a/bicycleparameters/io.py
+++ b/bicycleparameters/io.py
@@ -173,19 +173,17 @@ def write_parameter_text_file(pathToTxtFile, parDict):
 
     # make the Parameters directory if it doesn't exist
     head, tail = os.path.split(pathToTxtFile)
-    if not os.path.isdir(head):
+    if head and not os.path.isdir(head):
         print("Created direcotry %s" % head)
-        os.makedirs(head)
+        os.makedirs(head, exist_ok=True)
 
-    try:
-        f = open(pathToTxtFile)
-        f.close()
-        del f
+    # a file that can't be opened for reading exists too
+    if os.path.exists(pathToTxtFile):
         ans = None
         while ans != 'y' and ans != 'n':
             ans = input("%s exists already. Are you sure you want"
                         " to overwrite it? (y or n)\n" % pathToTxtFile)
-    except IOError:
+    else:
         ans = 'y'
 
     if ans == 'y':
-- 
2.43.0


From c1f73b76b98217364ff68c6d9c67dd61646f6b39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:01 +0000
Subject: [PATCH 05/53] fix: save each parameter set to its own file

The file name accumulated the names of the previously saved sets, so that only
the first set was saved to the file it is loaded from.
---
 bicycleparameters/main.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/bicycleparameters/main.py b/bicycleparameters/main.py
index fa75a72..a87b055 100644
--- a/bicycleparameters/main.py
+++ b/bicycleparameters/main.py
@@ -191,7 +191,7 @@ class Bicycle(object):
             pathToCombDir = os.path.join(pathToParDir, 'Combined')
             if not os.path.exists(pathToCombDir):
                 os.makedirs(pathToCombDir)
-            fileName = self.riderName + self.bicycleName
+            baseName = self.riderName + self.bicycleName
             # don't resave the measured parameters
             psets = [x for x in self.riderPar.keys() if x != 'Measured']
             parameters = self.riderPar
@@ -199,7 +199,7 @@ class Bicycle(object):
                    'saved here: {1}').format(self.riderName, pathToParDir))
         else:
             pathToParDir = os.path.join(self.directory, 'Parameters')
-            fileName = self.bicycleName
+            baseName = self.bicycleName
             # don't resave the measured parameters
             psets = [x for x in self.parameters.keys() if x != 'Measured']
             parameters = self.parameters
@@ -208,7 +208,7 @@ class Bicycle(object):
 
         if filetype == 'text':
             for pset in psets:
-                fileName = fileName + pset + '.txt'
+                fileName = baseName + pset + '.txt'
                 pathToTxtFile = os.path.join(pathToParDir, fileName)
                 io.write_parameter_text_file(pathToTxtFile, parameters[pset])
                 if self.hasRider:
-- 
2.43.0


From ec3caf1f334c74b0fec12d4bdedd2956529734d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:09 +0000
Subject: [PATCH 06/53] fix: ignore blank lines in parameter files

A blank line, e.g. at the end of a file typed by hand, stopped the load with an
IndexError.
---
 bicycleparameters/io.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/bicycleparameters/io.py b/bicycleparameters/io.py
index be81629..5860a5b 100644
--- a/bicycleparameters/io.py
+++ b/bicycleparameters/io.py
@@ -94,11 +94,12 @@ def load_parameter_text_file(pathToFile):
     # parse the text file
     with open(pathToFile, 'r') as f:
         for line in f:
-            # ignore lines that start with a hash
-            if line[0] != '#':
-                # remove any whitespace characters and comments at the end of
-                # the line, then split the right and left side of the equality
-                equality = line.strip().split('#')[0].split('=')
+            # remove any whitespace characters and comments, ignore lines
+            # that are blank or only hold a comment
+            content = line.split('#')[0].strip()
+            if content:
+                # split the right and left side of the equality
+                equality = content.split('=')
                 # ['a ', ' 0.1 +/- 0.05 , 0.09 +/- 0.05']
                 valList = equality[1].strip().split(',')
                 # ['0.1 +/- 0.05 ', ' 0.09 +/- 0.05']
-- 
2.43.0


From fc4e44fd91c07e06dd574cc290cc238b19678ddb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:50 +0000
Subject: [PATCH 07/53] fix: inertia tensors of parts with partly uncertain
 parameters

Whether any entry of a part's tensor can hold an uncertainty was decided by
IBxx alone, so that a rider or bicycle with a plain IBxx and another uncertain
inertia raised a TypeError.
---
 bicycleparameters/inertia.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/bicycleparameters/inertia.py b/bicycleparameters/inertia.py
index d172c09..9ffc954 100644
--- a/bicycleparameters/inertia.py
+++ b/bicycleparameters/inertia.py
@@ -172,11 +172,6 @@ def part_inertia_tensor(par, part):
     documentation.
 
     '''
-    if isinstance(par['IBxx'], UFloat):
-        dtype = object
-    else:
-        dtype = 'float64'
-    I = np.zeros((3, 3), dtype=dtype)
     # front or rear wheel
     if part in 'FRD':
         axes = np.array([['xx', None, None],
@@ -187,6 +182,13 @@ def part_inertia_tensor(par, part):
         axes = np.array([['xx', None, 'xz'],
                          [None, 'yy', None],
                          ['xz', None, 'zz']])
+    # any of the parameters may have an uncertainty
+    names = ['I' + part + col for col in axes.ravel() if col is not None]
+    if any(isinstance(par[name], UFloat) for name in ['IBxx'] + names):
+        dtype = object
+    else:
+        dtype = 'float64'
+    I = np.zeros((3, 3), dtype=dtype)
     for i, row in enumerate(axes):
         for j, col in enumerate(row):
             if col is not None:
-- 
2.43.0


From 1c9912bef07634fda313b6037395ac7133be0571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:39 +0000
Subject: [PATCH 08/53] fix: report parameter files that exist but can't be
 read

A disk error while reading the raw measurements gave a bicycle without them and
one while reading a rider silently replaced the rider by a calculated one.
---
 bicycleparameters/main.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bicycleparameters/main.py b/bicycleparameters/main.py
index a87b055..e02aeb9 100644
--- a/bicycleparameters/main.py
+++ b/bicycleparameters/main.py
@@ -145,7 +145,7 @@ class Bicycle(object):
             try:
                 self.parameters['Measured'] = \
                     io.load_parameter_text_file(pathToRawFile)
-            except IOError:
+            except FileNotFoundError:
                 pass
         else:
             print('''There is no data available. Create
@@ -469,7 +469,7 @@ class Bicycle(object):
                 try:
                     # load the parameter file
                     riderPar = io.load_parameter_text_file(pathToParFile)
-                except IOError:
+                except FileNotFoundError:
                     # file doesn't exist so run the calculations
                     print("No parameter files found, calculating the human " +
                           "configuration.")
-- 
2.43.0


From b126386be84de092ba2bf50bbda59e3ddfbe15be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:48 +0000
Subject: [PATCH 09/53] fix: don't take hidden files for pendulum recordings

---
 bicycleparameters/main.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/bicycleparameters/main.py b/bicycleparameters/main.py
index e02aeb9..b19518a 100644
--- a/bicycleparameters/main.py
+++ b/bicycleparameters/main.py
@@ -400,9 +400,10 @@ class Bicycle(object):
                 self.parameters['Measured'], forkIsSplit)
 
         if forcePeriodCalc:
-            # get the list of mat files associated with this bike
+            # get the list of mat files associated with this bike, without
+            # hidden files
             matFiles = [x for x in os.listdir(rawDataDir)
-                        if x.endswith('.mat')]
+                        if x.endswith('.mat') and not x.startswith('.')]
             matFiles.sort()
             # calculate the period for each file for this bicycle
             periods = period.calc_periods_for_files(rawDataDir, matFiles,
-- 
2.43.0


From e9aeb97ed00dae9e3c549b0efa4f73437cd1f43d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:44 +0000
Subject: [PATCH 10/53] fix: don't change the parameters when computing the
 canonical matrices

benchmark_par_to_canonical() added IRzz and IFzz to the caller's parameters, so
that what a bicycle saved and tabulated depended on earlier queries.
---
 bicycleparameters/bicycle.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/bicycleparameters/bicycle.py b/bicycleparameters/bicycle.py
index 55f516a..c9767b6 100644
--- a/bicycleparameters/bicycle.py
+++ b/bicycleparameters/bicycle.py
@@ -112,9 +112,10 @@ def benchmark_par_to_canonical(p):
             p['mF']*p['rF']**2)
     ITxz = (p['IBxz'] + p['IHxz'] - p['mB']*p['xB']*p['zB'] -
             p['mH']*p['xH']*p['zH'] + p['mF']*p['w']*p['rF'])
-    p['IRzz'] = p['IRxx']
-    p['IFzz'] = p['IFxx']
-    ITzz = (p['IRzz'] + p['IBzz'] + p['IHzz'] + p['IFzz'] +
+    # the wheels are symmetric
+    IRzz = p['IRxx']
+    IFzz = p['IFxx']
+    ITzz = (IRzz + p['IBzz'] + p['IHzz'] + IFzz +
             p['mB']*p['xB']**2 + p['mH']*p['xH']**2 + p['mF']*p['w']**2)
 
     mA = p['mH'] + p['mF']
@@ -125,7 +126,7 @@ def benchmark_par_to_canonical(p):
             p['mF']*(p['rF'] + zA)**2)
     IAxz = (p['IHxz'] - p['mH']*(p['xH'] - xA)*(p['zH'] - zA) + p['mF'] *
             (p['w'] - xA)*(p['rF'] + zA))
-    IAzz = (p['IHzz'] + p['IFzz'] + p['mH']*(p['xH'] - xA)**2 + p['mF'] *
+    IAzz = (p['IHzz'] + IFzz + p['mH']*(p['xH'] - xA)**2 + p['mF'] *
             (p['w'] - xA)**2)
     uA = (xA - p['w'] - p['c'])*umath.cos(p['lam']) - zA*umath.sin(p['lam'])
     IAll = (mA*uA**2 + IAxx*umath.sin(p['lam'])**2 +
-- 
2.43.0


From 31ec045f3c61f51f4bf19262b95a28fca434cdf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:03 +0000
Subject: [PATCH 11/53] fix: the lateral location of a rider is optional

combine_bike_rider() required yB although the documentation says that it may be
left out, and it changed the caller's bicycle parameters in place.
---
 bicycleparameters/inertia.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/bicycleparameters/inertia.py b/bicycleparameters/inertia.py
index 9ffc954..9eda645 100644
--- a/bicycleparameters/inertia.py
+++ b/bicycleparameters/inertia.py
@@ -19,7 +19,8 @@ def combine_bike_rider(bicyclePar, riderPar):
         The benchmark parameter set of a bicycle.
     riderPar : dictionary
         The rider's mass, center of mass, and inertia expressed in the
-        benchmark bicycle reference frame.
+        benchmark bicycle reference frame. The lateral location, ``yB``, is
+        optional.
 
     Returns
     -------
@@ -29,11 +30,14 @@ def combine_bike_rider(bicyclePar, riderPar):
 
     """
 
+    # leave the parameters of the bicycle without the rider as they are
+    bicyclePar = bicyclePar.copy()
+    riderYB = riderPar.get('yB', 0.)
     # list the masses of the rider and bicycle
     masses = np.array([riderPar['mB'], bicyclePar['mB']])
     # list the centers of mass of the rider and bicycle
     coordinates = np.array([[riderPar['xB'], bicyclePar['xB']],
-                            [riderPar['yB'], 0.],
+                            [riderYB, 0.],
                             [riderPar['zB'], bicyclePar['zB']]])
     # calculate the new mass and center of mass
     mT, cT = total_com(coordinates, masses)
@@ -43,7 +47,7 @@ def combine_bike_rider(bicyclePar, riderPar):
     # calculate the distance from the center of mass of each body to the
     # center of mass of the combined body
     dRider = np.array([riderPar['xB'] - cT[0],
-                       riderPar['yB'] - cT[1],
+                       riderYB - cT[1],
                        riderPar['zB'] - cT[2]])
     dBicycle = np.array([bicyclePar['xB'] - cT[0],
                          0.,
-- 
2.43.0


From 7a05843b86035c592ba160a8f362b2a1a9e336ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:06 +0000
Subject: [PATCH 12/53] fix: inertia of a bicycle with a rider that sits off
 centre

The lateral distance of the bicycle frame to the common mass center was left
out.
---
 bicycleparameters/inertia.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bicycleparameters/inertia.py b/bicycleparameters/inertia.py
index 9eda645..683f4b3 100644
--- a/bicycleparameters/inertia.py
+++ b/bicycleparameters/inertia.py
@@ -50,7 +50,7 @@ def combine_bike_rider(bicyclePar, riderPar):
                        riderYB - cT[1],
                        riderPar['zB'] - cT[2]])
     dBicycle = np.array([bicyclePar['xB'] - cT[0],
-                         0.,
+                         0. - cT[1],
                          bicyclePar['zB'] - cT[2]])
     # calculate the total inertia about the total body center of mass
     I = (parallel_axis(IRider, riderPar['mB'], dRider) +
-- 
2.43.0


From fdc43eb9301725064502bf2b451504659e0813b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:36 +0000
Subject: [PATCH 13/53] fix: sort every eigenvalue into exactly one mode

---
 bicycleparameters/bicycle.py | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/bicycleparameters/bicycle.py b/bicycleparameters/bicycle.py
index c9767b6..5c1e5bc 100644
--- a/bicycleparameters/bicycle.py
+++ b/bicycleparameters/bicycle.py
@@ -247,11 +247,8 @@ def sort_eigenmodes(evals, evecs):
                 xn, yn = np.real(eignext), np.imag(eignext)
                 # distance between points in the real/imag plane
                 dist[k] = np.abs(((xn - x)**2 + (yn - y)**2)**0.5)
-            if np.argmin(dist) in used:
-                # set the already used indice higher
-                dist[np.argmin(dist)] = np.max(dist) + 1.
-            else:
-                pass
+            # exclude the already used indices
+            dist[used] = np.inf
             evalsorg[i + 1, j] = evals[i + 1, np.argmin(dist)]
             evecsorg[i + 1, :, j] = evecs[i + 1, :, np.argmin(dist)]
             # keep track of the indices we've used
@@ -320,11 +317,8 @@ def sort_modes(evals, evecs):
                     xn, yn = np.real(eignext), np.imag(eignext)
                 # distance between points in the real/imag plane
                 dist[k] = np.abs(((xn - x)**2 + (yn - y)**2)**0.5)
-            if np.argmin(dist) in used:
-                # set the already used indice higher
-                dist[np.argmin(dist)] = np.max(dist) + 1.
-            else:
-                pass
+            # exclude the already used indices
+            dist[used] = np.inf
             evalsorg[i + 1, j] = evals[i + 1, np.argmin(dist)]
             evecsorg[i + 1, :, j] = evecs[i + 1, :, np.argmin(dist)]
             # keep track of the indices we've used
-- 
2.43.0


From 55463b2c51fa2fe86577b02bb1ca7d1d64cfd63d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:36 +0000
Subject: [PATCH 14/53] fix: accept any scalar speed for the eigenvalues

---
 bicycleparameters/main.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/bicycleparameters/main.py b/bicycleparameters/main.py
index b19518a..f5d7f97 100644
--- a/bicycleparameters/main.py
+++ b/bicycleparameters/main.py
@@ -1184,10 +1184,7 @@ class Bicycle(object):
         model.
 
         '''
-        if isinstance(speeds, float):
-            speeds = np.array([speeds])
-        else:
-            speeds = np.asarray(speeds)
+        speeds = np.atleast_1d(speeds)
 
         par = io.remove_uncertainties(self.parameters['Benchmark'])
 
-- 
2.43.0


From 75ab7105f61f358538a5ea875c3b9c8ccf3160cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:36 +0000
Subject: [PATCH 15/53] fix: comparing Bode plots of speeds and bicycles

---
 bicycleparameters/main.py | 4 ++--
 bicycleparameters/plot.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/bicycleparameters/main.py b/bicycleparameters/main.py
index f5d7f97..c1c4cb8 100644
--- a/bicycleparameters/main.py
+++ b/bicycleparameters/main.py
@@ -1518,13 +1518,13 @@ class Bicycle(object):
         """
 
         if fig is None:
-            fig = plt.figure()
+            fig, _ = plt.subplots(2, 1, sharex=True, layout='constrained')
 
         for speed in speeds:
             self.plot_bode(speed, u, y, label=str(speed) + ' m/s', fig=fig)
 
         # take care of phase misalignment
-        phaseLines = fig.ax2.lines
+        phaseLines = fig.axes[1].lines
         for line in phaseLines:
             firstValue = line.get_ydata()[0]
             n = np.ceil(np.floor(abs(firstValue / 180.)) / 2.)
diff --git a/bicycleparameters/plot.py b/bicycleparameters/plot.py
index 2fa25cf..eb58465 100644
--- a/bicycleparameters/plot.py
+++ b/bicycleparameters/plot.py
@@ -33,13 +33,13 @@ def compare_bode_bicycles(bikes, speed, u, y, fig=None):
     """
 
     if fig is None:
-        fig = plt.figure()
+        fig, _ = plt.subplots(2, 1, sharex=True, layout='constrained')
 
     for bike in bikes:
         bike.plot_bode(speed, u, y, label=bike.bicycleName, fig=fig)
 
     # take care of phase misalignment
-    phaseLines = fig.ax2.lines
+    phaseLines = fig.axes[1].lines
     for line in phaseLines:
         firstValue = line.get_ydata()[0]
         n = np.ceil(np.floor(abs(firstValue / 180.)) / 2.)
-- 
2.43.0


From 797b96499c9c2d00819809b3d3edcb8f86621cff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:10 +0000
Subject: [PATCH 16/53] fix: draw the inertia ellipses along the principal axes

The sign of an eigenvector is arbitrary, so the arc cosine of one component
mirrored the ellipse of some bodies, bodies without a product of inertia lost
the wrong axis, and the plotly version took degrees as radians.
---
 bicycleparameters/main.py | 20 +++++++-------------
 1 file changed, 7 insertions(+), 13 deletions(-)

diff --git a/bicycleparameters/main.py b/bicycleparameters/main.py
index c1c4cb8..6535d2c 100644
--- a/bicycleparameters/main.py
+++ b/bicycleparameters/main.py
@@ -561,10 +561,7 @@ class Bicycle(object):
                 else:
                     center = np.array([par['x' + part], -par['z' + part]])
                 # which row in C is the y vector
-                uy = np.array([0., 1., 0.])
-                for i, row in enumerate(C):
-                    if np.abs(np.sum(row - uy)) < 1E-10:
-                        yrow = i
+                yrow = np.argmax(np.abs(C[:, 1]))
                 # remove the row for the y vector
                 Ip2D = np.delete(Ip, yrow, 0)
                 # remove the column and row associated with the y
@@ -580,7 +577,7 @@ class Bicycle(object):
                 # principal moment of inertia
                 width = Imax * unitWidth
                 height = Imax * unitHeight
-                angle = -np.degrees(np.arccos(C2D[0, 0]))
+                angle = -np.degrees(np.arctan2(C2D[0, 1], C2D[0, 0]))
                 ellipse = Ellipse((center[0], center[1]), width, height,
                                   angle=angle, fill=False,
                                   color=partColors[part], alpha=0.25)
@@ -790,12 +787,9 @@ class Bicycle(object):
                     center = np.array([par['w'], par['rF']])
                 else:
                     center = np.array([par['x' + part], -par['z' + part]])
-                    # which row in C is the y vector
-                uy = np.array([0., 1., 0.])
-                for i, row in enumerate(C):
-                    if np.abs(np.sum(row - uy)) < 1E-10:
-                        yrow = i
-                    # remove the row for the y vector
+                # which row in C is the y vector
+                yrow = np.argmax(np.abs(C[:, 1]))
+                # remove the row for the y vector
                 Ip2D = np.delete(Ip, yrow, 0)
                 # remove the column and row associated with the y
                 C2D = np.delete(np.delete(C, yrow, 0), 1, 1)
@@ -810,14 +804,14 @@ class Bicycle(object):
                 # the maximum principal moment of inertia
                 width = Imax * unitWidth
                 height = Imax * unitHeight
-                angle = -np.degrees(np.arccos(C2D[0, 0]))
+                angle = -np.arctan2(C2D[0, 1], C2D[0, 0])
                 x_center = center[0]
                 y_center = center[1]
                 x_ep, y_ep = plot._generate_ellipse_plot_data(
                     x_center=x_center, y_center=y_center,
                     ax1=[np.cos(angle), np.sin(angle)],
                     ax2=[-np.sin(angle), np.cos(angle)],
-                    a=height, b=width, N=100)
+                    a=width, b=height, N=100)
 
                 fig1.add_scatter(x=x_ep, y=y_ep, mode='lines',
                                  name='Inertia of ' + part,
-- 
2.43.0


From 48725cf7c208184703babfcfb52130889aa549e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:00 +0000
Subject: [PATCH 17/53] fix: plot every eigenvector's own components

With an array valued parameter the sequence of eigenvector matrices was
transposed as a whole, which mixed the components of different eigenvectors and
parameter values.
---
 bicycleparameters/models.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/bicycleparameters/models.py b/bicycleparameters/models.py
index fa104f3..e414d63 100644
--- a/bicycleparameters/models.py
+++ b/bicycleparameters/models.py
@@ -294,7 +294,8 @@ class _Model(abc.ABC):
             **parameter_overrides)
 
         eval_seq, evec_seq = self.calc_eigen(**parameter_overrides)
-        eval_seq, evec_seq = np.atleast_2d(eval_seq), np.atleast_3d(evec_seq)
+        if not arr_keys:
+            eval_seq, evec_seq = np.array([eval_seq]), np.array([evec_seq])
 
         # TODO : This assumes that the eigenvalues are in the same order.
         plot = np.ones(len(eval_seq[-1]), dtype=int)
@@ -333,7 +334,7 @@ class _Model(abc.ABC):
         else:
             par_vals = [0.0]
 
-        for k, (evals, evecs, par_val) in enumerate(zip(eval_seq, evec_seq.T,
+        for k, (evals, evecs, par_val) in enumerate(zip(eval_seq, evec_seq,
                                                         par_vals)):
 
             if arr_keys:
@@ -342,7 +343,8 @@ class _Model(abc.ABC):
                                       labelpad=30)
 
             i = 0
-            for eigenval, eigenvec, pl in zip(evals, evecs, plot):
+            # columns are the eigenvectors
+            for eigenval, eigenvec, pl in zip(evals, evecs.T, plot):
 
                 if pl:
                     max_com = np.abs(eigenvec).max()
-- 
2.43.0


From f51016dc156a38d32e5a0458bff031ea8ea0fddb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:24 +0000
Subject: [PATCH 18/53] fix: convert Moore2019 to the feedback parameterization

The feedback set was built before its gains were added and always refused.
---
 bicycleparameters/parameter_sets.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bicycleparameters/parameter_sets.py b/bicycleparameters/parameter_sets.py
index c7a9972..7b3ca5c 100644
--- a/bicycleparameters/parameter_sets.py
+++ b/bicycleparameters/parameter_sets.py
@@ -1139,7 +1139,7 @@ class Moore2019ParameterSet(ParameterSet):
         elif name == 'Meijaard2007WithFeedback':
             b = _convert_principal_to_benchmark(self.parameters)
             # Moore2019 always includes the rider
-            par_set = Meijaard2007WithFeedbackParameterSet(b, True)
+            par_set = Meijaard2007ParameterSet(b, True)
             return par_set.to_parameterization(name)
         else:
             msg = '{} is not an available parameter set'
-- 
2.43.0


From 99845100340be8869a4bb4dddf36f5b8477e087b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:28 +0000
Subject: [PATCH 19/53] fix: keep the fractions of gains when all eight are
 lists

If the first value of every gain was an integer, the gain matrices were integer
arrays that truncated the values that followed.
---
 bicycleparameters/models.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bicycleparameters/models.py b/bicycleparameters/models.py
index e414d63..4bdd1cd 100644
--- a/bicycleparameters/models.py
+++ b/bicycleparameters/models.py
@@ -1131,7 +1131,7 @@ class Meijaard2007WithFeedbackModel(Meijaard2007Model):
             K = np.array([
                 [par[p][0] if p in arr_keys else par[p] for p in gain_names[:4]],
                 [par[p][0] if p in arr_keys else par[p] for p in gain_names[4:]]
-            ])
+            ], dtype=float)
             # K is now shape(n, 2, 4)
             K = np.tile(K, (arr_len, 1, 1))
             for k in arr_keys:
-- 
2.43.0


From 67cd4616b2697b8f9b7faab2ca3f833ae8bc42be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:02 +0000
Subject: [PATCH 20/53] fix: calc_eigen returned vectors that are not
 eigenvectors of the lean model

Rounding noise in the state matrix made np.linalg.eig() balance it badly.
---
 bicycleparameters/models.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/bicycleparameters/models.py b/bicycleparameters/models.py
index 4bdd1cd..bbce219 100644
--- a/bicycleparameters/models.py
+++ b/bicycleparameters/models.py
@@ -126,6 +126,12 @@ class _Model(abc.ABC):
         """
         A, B = self.form_state_space_matrices(**parameter_overrides)
 
+        # Entries that should be zero but evaluate to rounding noise make
+        # np.linalg.eig() balance the matrix badly and return vectors that are
+        # not eigenvectors, so set them to zero.
+        largest = np.max(np.abs(A), axis=(-2, -1), keepdims=True)
+        A = np.where(np.abs(A) < np.finfo(float).eps*largest, 0.0, A)
+
         if len(A.shape) == 3:  # array version
             evals = np.zeros(A.shape[:2], dtype='complex128')
             evecs = np.zeros(A.shape, dtype='complex128')
-- 
2.43.0


From 7a30496009b80eb9a8b938eaabeeb9ce25414df2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:29 +0000
Subject: [PATCH 21/53] fix: simulating the lean model changed the caller's
 initial conditions

---
 bicycleparameters/models.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/bicycleparameters/models.py b/bicycleparameters/models.py
index bbce219..742e600 100644
--- a/bicycleparameters/models.py
+++ b/bicycleparameters/models.py
@@ -1465,7 +1465,11 @@ class MooreRiderLean2012Model(_Model):
         par, array_keys, array_len = self._parse_parameter_overrides(
             **parameter_overrides)
 
+        if array_keys:
+            raise ValueError('Can only simulate with fixed parameters.')
+
         # u6 has to be consistent with v
+        initial_conditions = np.array(initial_conditions, dtype=float)
         initial_conditions[9] = -par['v']/par['rr']
 
         return super().simulate(times, initial_conditions,
@@ -1517,12 +1521,6 @@ class MooreRiderLean2012Model(_Model):
            m.plot_simulation(times, x0, v=20.0)
 
         """
-        par, array_keys, array_len = self._parse_parameter_overrides(
-            **parameter_overrides)
-
-        # u6 has to be consistent with v
-        initial_conditions[9] = -par['v']/par['rr']
-
         res, inputs = self.simulate(times, initial_conditions,
                                     input_func=input_func,
                                     **parameter_overrides)
-- 
2.43.0


From 82f754477a264b535c5533e6532fcb492e6ea6fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:29 +0000
Subject: [PATCH 22/53] fix: the lean model has twelve states, name the unit of
 the last one

---
 bicycleparameters/models.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bicycleparameters/models.py b/bicycleparameters/models.py
index 742e600..099c9fd 100644
--- a/bicycleparameters/models.py
+++ b/bicycleparameters/models.py
@@ -1281,7 +1281,7 @@ class MooreRiderLean2012Model(_Model):
                   'u4', 'u6', 'u7', 'u9']
     input_units = ['N-m', 'N-m', 'N-m']
     state_units = ['m', 'm', 'rad', 'rad', 'rad', 'rad', 'rad', 'rad',
-                   'rad/s', 'rad/s', 'rad/s', ]
+                   'rad/s', 'rad/s', 'rad/s', 'rad/s']
     input_vars_latex = ['T_4', 'T_7', 'T_9']
     state_vars_latex = ['q_1', 'q_2', 'q_3', 'q_4', 'q_6', 'q_7', 'q_8', 'q_9',
                         'u_4', 'u_6', 'u_7', 'u_9']
-- 
2.43.0


From ebc0405376c8f62e615e0b6259e14b1b8a18c673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:29 +0000
Subject: [PATCH 23/53] fix: a simulation that stops early is an error

---
 bicycleparameters/models.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bicycleparameters/models.py b/bicycleparameters/models.py
index 099c9fd..3af46b0 100644
--- a/bicycleparameters/models.py
+++ b/bicycleparameters/models.py
@@ -424,6 +424,9 @@ class _Model(abc.ABC):
                             t_eval=times,
                             method="LSODA")
 
+        if not res.success:
+            raise RuntimeError('The simulation failed: ' + res.message)
+
         if input_func is None:
             inputs = np.zeros((len(times), B.shape[1]))
         else:
-- 
2.43.0


From 7544e55e4bd4256de0f07b210b235e7c44a826de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:29 +0000
Subject: [PATCH 24/53] fix: simulations could miss changes of the input

---
 bicycleparameters/models.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/bicycleparameters/models.py b/bicycleparameters/models.py
index 3af46b0..2519364 100644
--- a/bicycleparameters/models.py
+++ b/bicycleparameters/models.py
@@ -418,11 +418,15 @@ class _Model(abc.ABC):
             def eval_rhs(t, x):
                 return A@x + B@input_func(t, x)
 
+        # The steps are limited because the solver may otherwise step over a
+        # change of the input, e.g. a short pulse applied to a bicycle in
+        # equilibrium.
         res = spi.solve_ivp(eval_rhs,
                             (times[0], times[-1]),
                             initial_conditions,
                             t_eval=times,
-                            method="LSODA")
+                            method="LSODA",
+                            max_step=np.max(np.diff(times)))
 
         if not res.success:
             raise RuntimeError('The simulation failed: ' + res.message)
-- 
2.43.0


From dc2f84fadc8542c4ea22531fc81e0e38bd288063 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:29 +0000
Subject: [PATCH 25/53] fix: an input function can run simulations itself

LSODA keeps its state in global variables.
---
 bicycleparameters/models.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/bicycleparameters/models.py b/bicycleparameters/models.py
index 2519364..557c6cc 100644
--- a/bicycleparameters/models.py
+++ b/bicycleparameters/models.py
@@ -420,13 +420,16 @@ class _Model(abc.ABC):
 
         # The steps are limited because the solver may otherwise step over a
         # change of the input, e.g. a short pulse applied to a bicycle in
-        # equilibrium.
+        # equilibrium, and the first one is given because estimating it from
+        # values that are not finite never ends. LSODA is not an option because
+        # it fails if the input function runs a simulation itself.
+        max_step = np.max(np.diff(times))
         res = spi.solve_ivp(eval_rhs,
                             (times[0], times[-1]),
                             initial_conditions,
                             t_eval=times,
-                            method="LSODA",
-                            max_step=np.max(np.diff(times)))
+                            first_step=max_step/100,
+                            max_step=max_step)
 
         if not res.success:
             raise RuntimeError('The simulation failed: ' + res.message)
-- 
2.43.0


From 9f3e9e85e76ec7e9055b890fcd63199c22149ef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:19 +0000
Subject: [PATCH 26/53] fix: the uncertainty of a period could be NaN

SST - SSR is only the error sum of squares for linear fits and may be negative.
---
 bicycleparameters/period.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bicycleparameters/period.py b/bicycleparameters/period.py
index f37fddc..5cf9fbe 100644
--- a/bicycleparameters/period.py
+++ b/bicycleparameters/period.py
@@ -199,7 +199,7 @@ def fit_goodness(ym, yp):
     '''
     SSR = np.sum((yp - np.mean(ym))**2)
     SST = np.sum((ym - np.mean(ym))**2)
-    SSE = SST - SSR
+    SSE = np.sum((ym - yp)**2)
     rsq = SSR / SST
     return rsq, SSE, SST, SSR
 
-- 
2.43.0


From 3a3b54c2a9f3a2f6cb7b30d16e9901d0ea73ef12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:19 +0000
Subject: [PATCH 27/53] fix: accept sample rates that are not integers

---
 bicycleparameters/period.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bicycleparameters/period.py b/bicycleparameters/period.py
index 5cf9fbe..0b66b9b 100644
--- a/bicycleparameters/period.py
+++ b/bicycleparameters/period.py
@@ -212,7 +212,7 @@ def get_period(data, sample_rate_or_time, pathToPlotFile):
     ----------
     data : array_like, shape(n,)
         A time series that resembles a decaying oscillation.
-    sample_rate_or_time : int or array_like, shape(n,)
+    sample_rate_or_time : float or array_like, shape(n,)
         Either the frequency in Hertz that data was sampled at or a time array
         that corresponds to ``data``.
     pathToPlotFile : string
@@ -226,7 +226,7 @@ def get_period(data, sample_rate_or_time, pathToPlotFile):
     '''
 
     y = data
-    if isinstance(sample_rate_or_time, int):
+    if np.ndim(sample_rate_or_time) == 0:
         sample_rate = sample_rate_or_time
         x = np.linspace(0.0, (len(y) - 1)/float(sample_rate), num=len(y))
     else:
-- 
2.43.0


From 02481f2ba6a201d84e0d342943fec407d55ab45b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:19 +0000
Subject: [PATCH 28/53] fix: estimate periods from time arrays that do not
 start near zero

---
 bicycleparameters/period.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bicycleparameters/period.py b/bicycleparameters/period.py
index 0b66b9b..1e38cec 100644
--- a/bicycleparameters/period.py
+++ b/bicycleparameters/period.py
@@ -230,7 +230,8 @@ def get_period(data, sample_rate_or_time, pathToPlotFile):
         sample_rate = sample_rate_or_time
         x = np.linspace(0.0, (len(y) - 1)/float(sample_rate), num=len(y))
     else:
-        x = sample_rate_or_time
+        # only the differences matter and the fit fails for large times
+        x = np.subtract(sample_rate_or_time, sample_rate_or_time[0])
         sample_rate = int(1.0/np.mean(np.diff(x)))  # approximate
 
     def fitfunc(p, t):
-- 
2.43.0


From bb8e054287e40f0d9a35e5877e2c5060b2ca48f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:52 +0000
Subject: [PATCH 29/53] fix: steer axis tilt from offsets without uncertainties

---
 bicycleparameters/bicycle.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/bicycleparameters/bicycle.py b/bicycleparameters/bicycle.py
index 5c1e5bc..789b306 100644
--- a/bicycleparameters/bicycle.py
+++ b/bicycleparameters/bicycle.py
@@ -2,7 +2,7 @@
 
 import numpy as np
 from scipy.optimize import newton
-from uncertainties import umath, ufloat
+from uncertainties import umath, ufloat, nominal_value, UFloat
 
 
 def ab_matrix(M, C1, K0, K2, v, g):
@@ -203,11 +203,13 @@ def lambda_from_abc(rF, rR, a, b, c):
     # that needs to be figured out. I guess I could use least squares and do it
     # the same way as get_period.
 
-    args = (rF.nominal_value, rR.nominal_value, a.nominal_value,
-            b.nominal_value, c.nominal_value)
+    args = tuple(nominal_value(x) for x in (rF, rR, a, b, c))
 
-    lam = newton(lam_equality, guess.nominal_value, args=args)
-    return ufloat(lam, guess.std_dev)
+    lam = newton(lam_equality, nominal_value(guess), args=args)
+    if isinstance(guess, UFloat):
+        return ufloat(lam, guess.std_dev)
+    else:
+        return lam
 
 
 def sort_eigenmodes(evals, evecs):
-- 
2.43.0


From 9b022feb87fd525ff4920e41cb701f492707bb9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:52 +0000
Subject: [PATCH 30/53] fix: refuse inertias from fewer than three orientations

---
 bicycleparameters/inertia.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/bicycleparameters/inertia.py b/bicycleparameters/inertia.py
index 683f4b3..fac5e93 100644
--- a/bicycleparameters/inertia.py
+++ b/bicycleparameters/inertia.py
@@ -116,6 +116,10 @@ def inertia_components(jay, beta):
         Ixx, Ixz, Izz
 
     '''
+    if len(jay) < 3:
+        msg = 'At least three orientations are needed, only {} available.'
+        raise ValueError(msg.format(len(jay)))
+
     sb = unumpy.sin(beta)
     cb = unumpy.cos(beta)
     betaMat = unumpy.matrix(np.vstack((cb**2, -2 * sb * cb, sb**2)).T)
-- 
2.43.0


From b24b379bf90246a1f28412df26d95c4cf10790af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:52 +0000
Subject: [PATCH 31/53] fix: match the angle of each orientation with its own
 period

---
 bicycleparameters/com.py  | 33 +++++++++++++++++++++++++--------
 bicycleparameters/main.py | 12 ++++++------
 2 files changed, 31 insertions(+), 14 deletions(-)

diff --git a/bicycleparameters/com.py b/bicycleparameters/com.py
index 6eba9f4..1357477 100644
--- a/bicycleparameters/com.py
+++ b/bicycleparameters/com.py
@@ -161,6 +161,27 @@ def com_line(alpha, a, par, part, l1, l2):
     return m, b, beta
 
 
+def orientations(mp):
+    '''Returns the names of the measured orientations in order.
+
+    Parameters
+    ----------
+    mp : dictionary
+        Dictionary with the measured parameters.
+
+    Returns
+    -------
+    names : list of strings
+        The part and the number of each orientation that has an angle, e.g.
+        'B1' for the measured parameter 'alphaB1'. The orientations of a part
+        are in order of their numbers, which may have more than one digit.
+
+    '''
+    names = [x[5:] for x in mp.keys() if x.startswith('alpha')]
+    names.sort(key=lambda x: (len(x), x))
+    return names
+
+
 def part_com_lines(mp, par, forkIsSplit):
     '''Returns the slopes and intercepts for all of the center of mass lines
     for each part.
@@ -195,15 +216,11 @@ def part_com_lines(mp, par, forkIsSplit):
         intercepts = {'B': [], 'H': []}
         betas = {'B': [], 'H': []}
 
-    # get the alpha keys and put them in order
-    listOfAlphaKeys = [x for x in mp.keys() if x.startswith('alpha')]
-    listOfAlphaKeys.sort()
-
     # caluclate m, b and beta for each orientation
-    for key in listOfAlphaKeys:
-        alpha = mp[key]
-        a = mp['a' + key[5:]]
-        part = key[5]
+    for orientation in orientations(mp):
+        alpha = mp['alpha' + orientation]
+        a = mp['a' + orientation]
+        part = orientation[0]
         m, b, beta = com_line(alpha, a, par, part, l1, l2)
         slopes[part].append(m)
         intercepts[part].append(b)
diff --git a/bicycleparameters/main.py b/bicycleparameters/main.py
index 6535d2c..49e8552 100644
--- a/bicycleparameters/main.py
+++ b/bicycleparameters/main.py
@@ -1662,16 +1662,16 @@ def calculate_benchmark_from_measured(mp):
     pendulumInertias = {}
 
     # calculate the in plane moments of inertia
-    for part, slopeSet in slopes.items():
-        # the number of orientations for this part
-        numOrien = len(slopeSet)
+    for part in slopes:
+        # the orientations of this part
+        orientations = [x for x in com.orientations(mp) if x[0] == part]
         # intialize arrays to store the inertia values and orientation angles
-        penInertia = np.zeros(numOrien, dtype=object)
+        penInertia = np.zeros(len(orientations), dtype=object)
         beta = np.array(betas[part])
         # fill arrays of the inertias
-        for i in range(numOrien):
+        for i, orientation in enumerate(orientations):
             penInertia[i] = inertia.tor_inertia(torStiff,
-                                                mp['Tt' + part + str(i + 1)])
+                                                mp['Tt' + orientation])
         # store these inertias
         pendulumInertias[part] = list(penInertia)
         inert = inertia.inertia_components(penInertia, beta)
-- 
2.43.0


From 26cd4e27933d1ba96bd6e937e23b700d60bafbba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:44 +0000
Subject: [PATCH 32/53] fix: close the fit figure when its file cannot be
 written

---
 bicycleparameters/period.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/bicycleparameters/period.py b/bicycleparameters/period.py
index 1e38cec..a6f53a0 100644
--- a/bicycleparameters/period.py
+++ b/bicycleparameters/period.py
@@ -284,9 +284,11 @@ def get_period(data, sample_rate_or_time, pathToPlotFile):
 
     # plot the data and save it to file
     fig, ax = plt.subplots(layout='constrained')
-    plot_osfit(x, y, lscurve, p1, rsq, T, m=np.max(x), fig=fig)
-    fig.savefig(pathToPlotFile)
-    plt.close()
+    try:
+        plot_osfit(x, y, lscurve, p1, rsq, T, m=np.max(x), fig=fig)
+        fig.savefig(pathToPlotFile)
+    finally:
+        plt.close(fig)
 
     # return the period
     return T
-- 
2.43.0


From c014dfa0c9ab632cfe93c8c016eaf6bf2db2253b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:44 +0000
Subject: [PATCH 33/53] fix: plot the fit on the given figure, not on the
 current one

---
 bicycleparameters/period.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/bicycleparameters/period.py b/bicycleparameters/period.py
index a6f53a0..08d3a6a 100644
--- a/bicycleparameters/period.py
+++ b/bicycleparameters/period.py
@@ -483,19 +483,19 @@ def plot_osfit(t, ym, yf, p, rsq, T, m=None, fig=None):
     else:
         fig, ax1 = plt.subplots(layout='constrained')
     ax1.plot(t, ym, '.', markersize=4)
-    plt.plot(t, yf, 'k-')
-    plt.xlabel('Time [s]')
-    plt.ylabel('Amplitude [V]')
+    ax1.plot(t, yf, 'k-')
+    ax1.set_xlabel('Time [s]')
+    ax1.set_ylabel('Amplitude [V]')
     equation = (r'$f(t)={0:1.2f}+e^{{-({3:1.3f})({4:1.1f})t}}\left[{1:1.2f}'
                 r'\sin{{\sqrt{{1-{3:1.3f}^2}}{4:1.1f}t}}+{2:1.2f}'
                 r'\cos{{\sqrt{{1-{3:1.3f}^2}}{4:1.1f}t}}\right]$')
     equation = equation.format(p[0], p[1], p[2], p[3], p[4])
     rsquare = r'$r^2={0:1.3f}$'.format(rsq)
     period = r'$T={0} s$'.format(T)
-    plt.title(equation + '\n' + rsquare + ', ' + period)
-    plt.legend(['Measured', 'Fit'])
+    ax1.set_title(equation + '\n' + rsquare + ', ' + period)
+    ax1.legend(['Measured', 'Fit'])
     if m is not None:
-        plt.xlim((0, m))
+        ax1.set_xlim((0, m))
     else:
         pass
     return fig
-- 
2.43.0


From 80cab51cae9a84b5a7927b19fc9de0a38ba4d63c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:44 +0000
Subject: [PATCH 34/53] fix: leave the plot settings as they were after an
 eigenvalue plot

---
 bicycleparameters/main.py | 28 +++++++++-------------------
 1 file changed, 9 insertions(+), 19 deletions(-)

diff --git a/bicycleparameters/main.py b/bicycleparameters/main.py
index 49e8552..5407545 100644
--- a/bicycleparameters/main.py
+++ b/bicycleparameters/main.py
@@ -1239,24 +1239,12 @@ class Bicycle(object):
         # figure properties
         fig_height = 4.0  # inches
         figsize = [fig_height*GOLDEN_RATIO, fig_height]
-        params = {
-            'axes.labelsize': 8,
-            'text.fontsize': 10,
-            'legend.fontsize': 8,
-            'xtick.labelsize': 6,
-            'ytick.labelsize': 6,
-            'figure.figsize': figsize
-            }
-        # NOTE : text.fontsize no longer supported in matplotlib
-        try:
-            plt.rcParams.update(params)
-        except KeyError:
-            del params['text.fontsize']
-            params['font.size'] = 10
-            plt.rcParams.update(params)
+        label_size = 8
+        tick_size = 6
 
         if fig is None:
             fig, ax = plt.subplots(figsize=figsize)
+            ax.tick_params(labelsize=tick_size)
         else:
             ax = fig.axes[0]
 
@@ -1289,7 +1277,8 @@ class Bicycle(object):
             ax.plot(speeds, np.zeros_like(speeds), 'k-', label='_nolegend_',
                     linewidth=1.5)
             ax.set_ylim((np.min(maxEval), np.max(maxEval)))
-            ax.set_ylabel('Real Part of the Largest Eigenvalue [1/s]')
+            ax.set_ylabel('Real Part of the Largest Eigenvalue [1/s]',
+                          fontsize=label_size)
         else:
             wea, cap, cas = bicycle.sort_modes(evals, evecs)
 
@@ -1314,17 +1303,18 @@ class Bicycle(object):
                     label=legend[5])
 
             # set labels and limits
-            ax.set_ylabel('Real and Imaginary Parts of the Eigenvalue [1/s]')
+            ax.set_ylabel('Real and Imaginary Parts of the Eigenvalue [1/s]',
+                          fontsize=label_size)
 
         ax.set_xlim((speeds[0], speeds[-1]))
-        ax.set_xlabel('Speed [m/s]')
+        ax.set_xlabel('Speed [m/s]', fontsize=label_size)
 
         if generic:
             ax.set_title('Eigenvalues vs Speed')
         else:
             ax.set_title('%s\nEigenvalues vs Speed' % self.bicycleName)
             if show_legend:
-                ax.legend()
+                ax.legend(fontsize=label_size)
 
         if grid:
             ax.grid()
-- 
2.43.0


From 9823290485dbbc53b42a675a34f06576c6d690ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:09 +0000
Subject: [PATCH 35/53] fix: make the same table on every call of
 create_rst_table

---
 bicycleparameters/tables.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/bicycleparameters/tables.py b/bicycleparameters/tables.py
index b26cb60..022194e 100644
--- a/bicycleparameters/tables.py
+++ b/bicycleparameters/tables.py
@@ -83,12 +83,12 @@ class Table():
 
         """
 
-        table = self.tableData
+        table = [list(row) for row in self.tableData]
 
         # add the math directive if using latex
         if self.latex:
-            for i, row in enumerate(table):
-                self.tableData[i][0] = ':math:`' + row[0] + '`'
+            for row in table:
+                row[0] = ':math:`' + row[0] + '`'
 
         # add a sub header
         table.insert(0, ['Variable'])
-- 
2.43.0


From 88b6a97a99233a722174a40074402f9d3d6ae638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:09 +0000
Subject: [PATCH 36/53] fix: tables keep their own list of bicycles

---
 bicycleparameters/tables.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bicycleparameters/tables.py b/bicycleparameters/tables.py
index 022194e..69ee61a 100644
--- a/bicycleparameters/tables.py
+++ b/bicycleparameters/tables.py
@@ -23,7 +23,7 @@ class Table():
 
         """
         self.source = source
-        self.bicycles = bicycles
+        self.bicycles = list(bicycles)
         self.latex = latex
         # go ahead and calculate the base data, which sets allVariables and
         # tableData
-- 
2.43.0


From 3b2d2922fd975d0b88a807b5e8098185be95757b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:09 +0000
Subject: [PATCH 37/53] fix: show zero, tiny and large uncertainties in tables

---
 bicycleparameters/tables.py | 32 +++++++++-----------------------
 1 file changed, 9 insertions(+), 23 deletions(-)

diff --git a/bicycleparameters/tables.py b/bicycleparameters/tables.py
index 69ee61a..04c7609 100644
--- a/bicycleparameters/tables.py
+++ b/bicycleparameters/tables.py
@@ -1,4 +1,4 @@
-from math import ceil
+from math import ceil, floor, log10
 
 from .io import _write_text
 
@@ -222,8 +222,6 @@ def uround(value):
 
     2.4564+/-0.0004
 
-    This probably doesn't work for weird cases like large uncertainties.
-
     '''
     try:
     # grab the nominal value and the uncertainty
@@ -232,25 +230,13 @@ def uround(value):
         s = str(value)
     else:
         uncert = value.std_dev
-        if abs(nom) < 1e-15:
-            s = '0.0+/-0.0'
+        if uncert == 0.0:
+            # there is nothing to round to
+            s = '%s+/-0.0' % nom
         else:
-            # convert the uncertainty to a string
-            s = '%.14f' % uncert
-            # find the first non-zero character
-            for j, number in enumerate(s):
-                if number == '0' or number == '.':
-                    pass
-                else:
-                    digit = j
-                    break
-            newUncert = round(uncert, digit - 1)
-            newUncertStr = ('%.' + str(digit - 1) + 'f') % newUncert
-            newNom = round(nom, len(newUncertStr) - 2)
-            newNomStr = ('%.' + str(digit - 1) + 'f') % newNom
-            diff = len(newUncertStr) - len(newNomStr)
-            if diff > 0:
-                s = newNomStr + int(diff) * '0' + '+/-' + newUncertStr
-            else:
-                s = newNomStr + '+/-' + newUncertStr
+            # the decimal place of the uncertainty's first significant digit
+            digit = -floor(log10(uncert))
+            decimals = max(digit, 0)
+            s = '%.*f+/-%.*f' % (decimals, round(nom, digit),
+                                 decimals, round(uncert, digit))
     return s
-- 
2.43.0


From 259983944a714158864a365c88ff1f3f294713f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:09 +0000
Subject: [PATCH 38/53] fix: label ten and more orientations in LaTeX tables

---
 bicycleparameters/tables.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/bicycleparameters/tables.py b/bicycleparameters/tables.py
index 04c7609..9c59e34 100644
--- a/bicycleparameters/tables.py
+++ b/bicycleparameters/tables.py
@@ -187,11 +187,11 @@ def to_latex(var):
         latex = latexMap[var]
     except KeyError:
         if var.startswith('alpha'):
-            latex = r'\alpha_{' + var[-2:] + '}'
-        elif var.startswith('a') and len(var) == 3:
-            latex = 'a_{' + var[-2:] + '}'
+            latex = r'\alpha_{' + var[5:] + '}'
+        elif var.startswith('a') and len(var) >= 3:
+            latex = 'a_{' + var[1:] + '}'
         elif var.startswith('T'):
-            latex = 'T^' + var[1] + '_{' + var[-2:] + '}'
+            latex = 'T^' + var[1] + '_{' + var[2:] + '}'
         elif len(var) == 2:
             latex = var[0] + '_' + var[1]
         elif var.startswith('I'):
-- 
2.43.0


From ca1eaca99a984cc5e7df324cef957d522bd7246e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:40 +0000
Subject: [PATCH 39/53] fix: read Moore2012 parameter sets from files

---
 bicycleparameters/parameter_sets.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/bicycleparameters/parameter_sets.py b/bicycleparameters/parameter_sets.py
index 7b3ca5c..d142dd0 100644
--- a/bicycleparameters/parameter_sets.py
+++ b/bicycleparameters/parameter_sets.py
@@ -1707,6 +1707,14 @@ class Moore2012ParameterSet(ParameterSet):
         self.includes_rider = includes_rider
         self._generate_body_colors()
 
+    @classmethod
+    def _from_yaml(cls, path_to_file):
+
+        with open(os.path.join(path_to_file), 'r') as f:
+            yaml_data = yaml.load(f, Loader=yaml.FullLoader)
+
+        return cls(yaml_data['values'], yaml_data['rider'])
+
 
 class MooreRiderLean2012ParameterSet(ParameterSet):
     """Represents the parameters of the Carvallo-Whipple model with a leaning
-- 
2.43.0


From d647c214918ea34e8451db68a7df66d79b6293ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:40 +0000
Subject: [PATCH 40/53] fix: write parameter set files that can be loaded again

---
 bicycleparameters/parameter_sets.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bicycleparameters/parameter_sets.py b/bicycleparameters/parameter_sets.py
index d142dd0..cd62a0b 100644
--- a/bicycleparameters/parameter_sets.py
+++ b/bicycleparameters/parameter_sets.py
@@ -187,7 +187,8 @@ class ParameterSet(ABC):
             'parameterization': self.parameterization,
             'parameters': '',
             'rider': None,
-            'values': self.parameters,
+            # plain floats, other number types can't be loaded again
+            'values': {k: float(v) for k, v in self.parameters.items()},
         }
         _write_text(fname, yaml.dump(data))
 
-- 
2.43.0


From 8410fb061809f2cfcbfa40bda9bf7d99cf4da473 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:40 +0000
Subject: [PATCH 41/53] fix: keep the rider in parameter set files

---
 bicycleparameters/parameter_sets.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bicycleparameters/parameter_sets.py b/bicycleparameters/parameter_sets.py
index cd62a0b..68faf72 100644
--- a/bicycleparameters/parameter_sets.py
+++ b/bicycleparameters/parameter_sets.py
@@ -186,7 +186,7 @@ class ParameterSet(ABC):
             'description': '',
             'parameterization': self.parameterization,
             'parameters': '',
-            'rider': None,
+            'rider': getattr(self, 'includes_rider', None),
             # plain floats, other number types can't be loaded again
             'values': {k: float(v) for k, v in self.parameters.items()},
         }
-- 
2.43.0


From 9f4e0f89409a4e5b46e904a097e69057afd27dc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:28 +0000
Subject: [PATCH 42/53] fix: show each plot of the web app in its own place

The plots were returned in the reverse order of the outputs.
---
 bicycleparameters/app.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bicycleparameters/app.py b/bicycleparameters/app.py
index ed1611e..c2ce12e 100644
--- a/bicycleparameters/app.py
+++ b/bicycleparameters/app.py
@@ -396,7 +396,7 @@ def plot_update(value, wheel, frame, general, options, slider):
     eigen_plot = Bike._plot_eigenvalues_vs_speed_plotly(
         speeds, show=False, stability_region=stability_option)
 
-    return eigen_plot, geo_plot
+    return geo_plot, eigen_plot
 
 
 # sets loading notification for the geometry plot
-- 
2.43.0


From 540179f875add8ebfcfcdd7fb8e198ea2429a54c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:28 +0000
Subject: [PATCH 43/53] fix: do not truncate the steer axis tilt in the web app

The table showed whole degrees, the plots were then based on them after the
first edit.
---
 bicycleparameters/app.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bicycleparameters/app.py b/bicycleparameters/app.py
index c2ce12e..af07daf 100644
--- a/bicycleparameters/app.py
+++ b/bicycleparameters/app.py
@@ -314,7 +314,7 @@ def populate_wheel_data(value, n_clicks):
     lamD = data[2]
     radians = lamD.get('data')
     degrees = np.rad2deg(radians)
-    data[2] = {'data': int(degrees)}
+    data[2] = {'data': float(degrees)}
 
     for c, d in zip(genLabels, data):
         zipped = {}
-- 
2.43.0


From 9c16c0d10639f6a3887621c80d884918bd51fde0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:28 +0000
Subject: [PATCH 44/53] fix: do not let the bicycle of the web app be cleared

There is nothing to show without a bicycle, the requests failed.
---
 bicycleparameters/app.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bicycleparameters/app.py b/bicycleparameters/app.py
index af07daf..45ab512 100644
--- a/bicycleparameters/app.py
+++ b/bicycleparameters/app.py
@@ -137,6 +137,7 @@ app.layout = html.Div([
                                                          className='centered'),
                                                  dcc.Dropdown(id='bike-dropdown',
                                                               value='Benchmark',
+                                                              clearable=False,
                                                               options=[{'label': k, 'value': v} for k, v in zip(OPT_LABELS, OPTIONS)],
                                                               style={'color': 'black'}),
                                                  dcc.Checklist(id='geometry-checklist',
-- 
2.43.0


From d1d51e1849dcd3c82846fe5816a29a2aef2d68c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:28 +0000
Subject: [PATCH 45/53] fix: plot the eigenvalues at a single speed in the web
 app

Both handles of the slider at the same speed failed.
---
 bicycleparameters/app.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bicycleparameters/app.py b/bicycleparameters/app.py
index 45ab512..74a0ad9 100644
--- a/bicycleparameters/app.py
+++ b/bicycleparameters/app.py
@@ -356,7 +356,8 @@ def plot_update(value, wheel, frame, general, options, slider):
     minBound = rangeSliderData[0]
     maxBound = rangeSliderData[1]
     steps = (maxBound-minBound)/0.1
-    speeds = np.linspace(minBound, maxBound, num=int(steps))
+    # the handles of the slider may be at the same speed
+    speeds = np.linspace(minBound, maxBound, num=max(int(steps), 1))
 
     # create Bike using default data based on dropdown menu value
     Bike = bp.Bicycle(value, pathToData=PATH_TO_APP_DATA)
-- 
2.43.0


From 06481ba81aecf234559294e56336852fd9bdee9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:28 +0000
Subject: [PATCH 46/53] fix: shade exactly the stable speeds in the eigenvalue
 plot

The plot failed if there was no stable speed and shaded unstable speeds if the
stable speeds of the modes overlap in more than one or no range.
---
 bicycleparameters/main.py | 35 ++++++++++++-----------------------
 1 file changed, 12 insertions(+), 23 deletions(-)

diff --git a/bicycleparameters/main.py b/bicycleparameters/main.py
index 5407545..1bfb863 100644
--- a/bicycleparameters/main.py
+++ b/bicycleparameters/main.py
@@ -1387,35 +1387,24 @@ class Bicycle(object):
                                  line=dict(color=casterColor, dash='dash'),
                                  text='Im'))
         if stability_region:
-            try:
-                v_start_stab = max([min(speeds[np.real(wea2) < 0]),
-                                    min(speeds[np.real(cas['evals']) < 0]),
-                                    min(speeds[np.real(cap['evals']) < 0]),
-                                    min(speeds[np.real(wea1) < 0],
-                                        default="EMPTY")])
-                v_end_stab = min([max(speeds[np.real(wea2) < 0]),
-                                  max(speeds[np.real(cas['evals']) < 0]),
-                                  max(speeds[np.real(cap['evals']) < 0]),
-                                  max(speeds[np.real(wea1) < 0])])
-            except:  # TODO : Add explicit exception
-                fig.add_annotation(x=0.5*max(speeds), y=9,
-                                   text="No stability region",
-                                   showarrow=False)
-            if (v_start_stab > v_end_stab):
-                fig.add_annotation(x=0.5*max(speeds), y=9,
-                                   text="No stability region",
-                                   showarrow=False)
-            elif (v_end_stab - v_start_stab < 0.0001):
-                fig.add_annotation(x=0.5*max(speeds), y=9,
-                                   text="No stability region",
-                                   showarrow=False)
-            else:
+            # shade every contiguous range of speeds at which all of the
+            # modes are stable
+            stable = np.all(np.real(evals) < 0.0, axis=1)
+            edges = np.flatnonzero(np.diff(np.hstack((0, stable, 0))))
+            regions = [(speeds[i], speeds[j - 1])
+                       for i, j in zip(edges[::2], edges[1::2])
+                       if speeds[j - 1] - speeds[i] >= 0.0001]
+            for v_start_stab, v_end_stab in regions:
                 fig.add_vrect(x0=v_start_stab, x1=v_end_stab,
                               annotation_text="Self stability",
                               annotation_position='top left',
                               # fillcolor="blue", opacity=0.25,
                               fillcolor='rgba(71,147,231,0.5)',
                               line_width=0, row=1, col=1)
+            if not regions:
+                fig.add_annotation(x=0.5*max(speeds), y=9,
+                                   text="No stability region",
+                                   showarrow=False)
 
         fig.update_layout(title=dict(text='Eigenvalues vs velocity',
                           font=dict(family="Segoe UI", size=25)),
-- 
2.43.0


From c5ae4c4efe59999c090e2072627c8b2b1c9fab2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:41 +0000
Subject: [PATCH 47/53] fix: take IByy and IHyy as zero if they aren't given

The documentation lists them among the optional parameters that are assumed to
be equal to zero, but plotting the geometry with the inertia ellipses, the
steer assembly inertia and adding a rider all failed with a KeyError.
---
 bicycleparameters/inertia.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bicycleparameters/inertia.py b/bicycleparameters/inertia.py
index fac5e93..d2989b7 100644
--- a/bicycleparameters/inertia.py
+++ b/bicycleparameters/inertia.py
@@ -190,6 +190,8 @@ def part_inertia_tensor(par, part):
         axes = np.array([['xx', None, 'xz'],
                          [None, 'yy', None],
                          ['xz', None, 'zz']])
+    # these are assumed to be zero if they aren't given
+    par = {'IByy': 0., 'IHyy': 0., **par}
     # any of the parameters may have an uncertainty
     names = ['I' + part + col for col in axes.ravel() if col is not None]
     if any(isinstance(par[name], UFloat) for name in ['IBxx'] + names):
-- 
2.43.0


From d98b120886393f4857030af0f16cfdabbd9fdd13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:42 +0000
Subject: [PATCH 48/53] fix: give each calculated rider densities of its own

yeadon scales the densities shared by all humans to the mass of one rider in
place, so a rider without a measured mass became heavier or lighter depending
on the riders that were calculated before.
---
 bicycleparameters/rider.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/bicycleparameters/rider.py b/bicycleparameters/rider.py
index cecf6e7..771556e 100644
--- a/bicycleparameters/rider.py
+++ b/bicycleparameters/rider.py
@@ -1,5 +1,6 @@
 #!/usr/bin/env python
 
+import copy
 import os
 import numpy as np
 from numpy import sin, cos, sqrt
@@ -203,7 +204,12 @@ def rider_on_bike(benchmarkPar, measuredPar, yeadonMeas, yeadonCFG,
     """
 
     # create human using input measurements and configuration files
-    human = yeadon.Human(yeadonMeas, yeadonCFG)
+    # yeadon scales the densities it holds for all humans to the mass of this
+    # one, so the human gets densities of its own
+    human = yeadon.Human.__new__(yeadon.Human)
+    human.segmental_densities = copy.deepcopy(
+        yeadon.Human.segmental_densities)
+    human.__init__(yeadonMeas, yeadonCFG)
 
     # The relevant human measurments:
     L_j3L = human.meas['Lj3L']
-- 
2.43.0


From 55995eef0e9847e13c0112c198ac04d925907df3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:33 +0000
Subject: [PATCH 49/53] fix: seat riders with knees and elbows bent the way
 they bend

The equations for the joint angles have solutions in which the elbows are bent
backwards or the arms are turned several times, and fsolve sometimes found one
of these or none at all although the rider can reach pedals and grips.
---
 bicycleparameters/rider.py | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/bicycleparameters/rider.py b/bicycleparameters/rider.py
index 771556e..0fce4f4 100644
--- a/bicycleparameters/rider.py
+++ b/bicycleparameters/rider.py
@@ -341,7 +341,22 @@ def rider_on_bike(benchmarkPar, measuredPar, yeadonMeas, yeadonCFG,
              g_CA1rotation, g_A1A2extension, g_alpha_y, g_alpha_z, g_beta_y,
              g_beta_z]
 
-    solution = fsolve(zero, guess)
+    # Some solutions have joints that are bent the wrong way, and sometimes
+    # none is found, so try again with other angles of shoulder and elbow.
+    joints = ('PJ1extension', 'J1J2flexion', 'CA1extension', 'CA1adduction',
+              'CA1rotation', 'A1A2extension')
+    bounds = dict(zip(human.CFGnames, human.CFGbounds))
+    for shoulder, elbow in np.deg2rad([[-15.0, -40.0], [-15.0, -70.0],
+                                       [-15.0, -100.0], [-60.0, -40.0],
+                                       [-60.0, -70.0], [-60.0, -100.0]]):
+        start = guess.copy()
+        start[2], start[5] = shoulder, elbow
+        solution, _, status, _ = fsolve(zero, start, full_output=True)
+        if status == 1 and all(bounds[joint][0] <= angle <= bounds[joint][1]
+                               for joint, angle in zip(joints, solution)):
+            break
+    else:
+        solution = fsolve(zero, guess)
 
     cfg_dict = human.CFG.copy()
     cfg_dict['PJ1extension'] = solution[0]
-- 
2.43.0


From 9854973727379c59f0a45ca1d2c55bf21de6755f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:42:57 +0000
Subject: [PATCH 50/53] fix: draw the inertia ellipses at full size

The semi axes of the ellipsoid were passed as the full width and height of the
ellipse.
---
 bicycleparameters/parameter_sets.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/bicycleparameters/parameter_sets.py b/bicycleparameters/parameter_sets.py
index 68faf72..a4e25d9 100644
--- a/bicycleparameters/parameter_sets.py
+++ b/bicycleparameters/parameter_sets.py
@@ -781,8 +781,8 @@ class Meijaard2007ParameterSet(ParameterSet):
 
         kaa, kbb, kyy, alpha = self._planar_principal_radii_of_gyration(body)
 
-        width = np.sqrt(5/2*(-kaa**2 + kyy**2 + kbb**2))
-        height = np.sqrt(5/2*(kaa**2 + kyy**2 - kbb**2))
+        width = 2*np.sqrt(5/2*(-kaa**2 + kyy**2 + kbb**2))
+        height = 2*np.sqrt(5/2*(kaa**2 + kyy**2 - kbb**2))
 
         ellipse = patches.Ellipse((p['x{}'.format(body)], p['z{}'.format(body)]),
                                   width, height,
@@ -1466,8 +1466,8 @@ class Moore2019ParameterSet(ParameterSet):
         kyy = p['k{}yy'.format(body)]
         alpha = p['alpha{}'.format(body)]
 
-        width = np.sqrt(5/2*(-kaa**2 + kyy**2 + kbb**2))
-        height = np.sqrt(5/2*(kaa**2 + kyy**2 - kbb**2))
+        width = 2*np.sqrt(5/2*(-kaa**2 + kyy**2 + kbb**2))
+        height = 2*np.sqrt(5/2*(kaa**2 + kyy**2 - kbb**2))
 
         ellipse = patches.Ellipse((p['x{}'.format(body)],
                                    p['z{}'.format(body)]), width, height,
-- 
2.43.0


From 1ee9ebd5e23b0b22585d8c63ba19d50e6ff9f254 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:43:01 +0000
Subject: [PATCH 51/53] fix: convert Moore2019 sets without the optional
 parameters

---
 bicycleparameters/parameter_sets.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/bicycleparameters/parameter_sets.py b/bicycleparameters/parameter_sets.py
index a4e25d9..ae5b8f0 100644
--- a/bicycleparameters/parameter_sets.py
+++ b/bicycleparameters/parameter_sets.py
@@ -1131,14 +1131,17 @@ class Moore2019ParameterSet(ParameterSet):
         array([ 0.31156277,  0.        , -1.03972442])
 
         """
+        p = self.parameters.copy()
+        p.update(self._calc_derived_params())
+
         if name == self.parameterization:
             return self
         elif name == 'Meijaard2007':
-            b = _convert_principal_to_benchmark(self.parameters)
+            b = _convert_principal_to_benchmark(p)
             # Moore2019 always includes the rider
             return Meijaard2007ParameterSet(b, True)
         elif name == 'Meijaard2007WithFeedback':
-            b = _convert_principal_to_benchmark(self.parameters)
+            b = _convert_principal_to_benchmark(p)
             # Moore2019 always includes the rider
             par_set = Meijaard2007ParameterSet(b, True)
             return par_set.to_parameterization(name)
-- 
2.43.0


From fb9313166bb17c36b72af122265a893aab12e3a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:32:33 +0000
Subject: [PATCH 52/53] fix: propagate the uncertainty of the steer axis tilt

The tilt of a bicycle measured by offsets had the uncertainty of a guess for
equal wheels and was not correlated with the measurements, so the uncertainty
of everything calculated from it was wrong.
---
 bicycleparameters/bicycle.py | 28 ++++++++--------------------
 1 file changed, 8 insertions(+), 20 deletions(-)

diff --git a/bicycleparameters/bicycle.py b/bicycleparameters/bicycle.py
index 789b306..b6bf855 100644
--- a/bicycleparameters/bicycle.py
+++ b/bicycleparameters/bicycle.py
@@ -1,8 +1,7 @@
 #!/usr/bin/env python
 
 import numpy as np
-from scipy.optimize import newton
-from uncertainties import umath, ufloat, nominal_value, UFloat
+from uncertainties import umath
 
 
 def ab_matrix(M, C1, K0, K2, v, g):
@@ -192,24 +191,13 @@ def lambda_from_abc(rF, rR, a, b, c):
         intersection of the front and rear wheel offset lines.
 
     '''
-    def lam_equality(lam, rF, rR, a, b, c):
-        return umath.sin(lam) - (rF - rR + c * umath.cos(lam)) / (a + b)
-    guess = umath.atan(c / (a + b))  # guess based on equal wheel radii
-
-    # The following assumes that the uncertainty calculated for the guess is
-    # the same as the uncertainty for the true solution. This is not true! and
-    # will surely breakdown the further the guess is away from the true
-    # solution. There may be a way to calculate the correct uncertainity, but
-    # that needs to be figured out. I guess I could use least squares and do it
-    # the same way as get_period.
-
-    args = tuple(nominal_value(x) for x in (rF, rR, a, b, c))
-
-    lam = newton(lam_equality, nominal_value(guess), args=args)
-    if isinstance(guess, UFloat):
-        return ufloat(lam, guess.std_dev)
-    else:
-        return lam
+    # The line from the rear to the front wheel center makes the angle lam -
+    # atan(c / (a + b)) with the ground because the wheel centers are at
+    # different heights if the wheels are not equal.
+    lam = (umath.atan2(c, a + b) +
+           umath.asin((rF - rR) / umath.sqrt((a + b)**2 + c**2)))
+
+    return lam
 
 
 def sort_eigenmodes(evals, evecs):
-- 
2.43.0


From cbaee0d0e6a53d57f942c9216fb217e0100aad1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:49:53 +0000
Subject: [PATCH 53/53] fix: evaluate the uncertainties of the geometry once

Everything calculated from measurements depends on the wheelbase, tilt and
trail and had to expand their expressions again and again, which took minutes
for matrices of bicycles measured by offsets.
---
 bicycleparameters/geometry.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/bicycleparameters/geometry.py b/bicycleparameters/geometry.py
index 2846326..7758b30 100644
--- a/bicycleparameters/geometry.py
+++ b/bicycleparameters/geometry.py
@@ -46,6 +46,12 @@ def calculate_benchmark_geometry(mp, par):
     # trail
     par['c'] = trail(par['rF'], par['lam'], forkOffset)[0]
 
+    # The derivatives with respect to the measurements are calculated when the
+    # standard deviation is. Do that once here, everything else depends on
+    # these and would have to repeat it.
+    for value in par.values():
+        getattr(value, 'std_dev', None)
+
     # this will simply transfer the lateral force point through to the
     # benchmark parameters, as they are in the benchmark coordinate system
     try:
-- 
2.43.0

