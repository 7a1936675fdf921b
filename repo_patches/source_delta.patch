From 3c1ea9f0bdb9984175d59580ab05545fc009ebf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:05 +0000
Subject: [PATCH 01/42] fix: reject GPS fixes with missing (NaN) fields in
 _gps_in_bounds

---
 gemlog/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gemlog/core.py b/gemlog/core.py
index f1aad87..4d26d88 100644
--- a/gemlog/core.py
+++ b/gemlog/core.py
@@ -946,7 +946,7 @@ def _gps_in_bounds(G):
     bad_gps = False
     for key, (lo, hi) in limits.items():
         data = G[key]
-        bad_gps |= (data < lo) | (data > hi)
+        bad_gps |= ~((data >= lo) & (data <= hi)) # missing (nan) fields are bad too
 
     # custom limits:
     bad_gps |= (
-- 
2.43.0


From 9db4d92ca42c33d79dc20fc69b43e752c659b65f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:28 +0000
Subject: [PATCH 02/42] fix: reject unknown units in convert instead of
 stamping NaN calibration

---
 gemlog/core.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gemlog/core.py b/gemlog/core.py
index 4d26d88..a0e9bee 100644
--- a/gemlog/core.py
+++ b/gemlog/core.py
@@ -210,6 +210,8 @@ def convert(rawpath = '.', convertedpath = 'converted', metadatapath = 'metadata
             bitweight = L['header']['bitweight_V'][0]
         elif (units == 'Counts') | (units == 'counts'):
             bitweight = 1
+        else:
+            raise ValueError(f'Invalid units: {units}')
       
     ## if not specified, define t1 as the earliest integer-second time available
     if(np.isinf(float(t1))):
-- 
2.43.0


From 7c3460bc6c9eb99cb48974c2e715ab1d5aff50d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:43 +0000
Subject: [PATCH 03/42] fix: shift a restarted raw file by whole rollovers of
 its own format

---
 gemlog/core.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/gemlog/core.py b/gemlog/core.py
index a0e9bee..0539fbe 100644
--- a/gemlog/core.py
+++ b/gemlog/core.py
@@ -1052,11 +1052,13 @@ def _read_several(fnList, version = 0.9, require_gps = True):
                 L = _read_single(fn, startMillis, require_gps = require_gps, version = version)
             else:
                 raise CorruptRawFile('Invalid raw file format version: ' + str(version))
-            ## make sure the first millis is > startMillis
+            ## make sure the first millis is > startMillis, shifting by whole rollovers if needed
+            rollover = 2**16 if str(version) in ['0.8', '0.85'] else 2**13
             if(L['data'][0,0] < startMillis):
-                L['metadata'].millis += 2**13
-                L['gps'].msPPS += 2**13
-                L['data'][:,0] += 2**13
+                shift = rollover * int(np.ceil((startMillis - L['data'][0,0]) / rollover))
+                L['metadata'].millis += shift
+                L['gps'].msPPS += shift
+                L['data'][:,0] += shift
             ## if the millis series is discontinuous, reject the file
             dMillis = np.diff(L['data'][:,0])
             if any(dMillis < 0) or any(dMillis > 1000):
-- 
2.43.0


From dfd2c880b780bb00f8c74f4f9a241665bece5178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:43 +0000
Subject: [PATCH 04/42] fix: a skipped raw file no longer claims a time range
 in the header

---
 gemlog/core.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/gemlog/core.py b/gemlog/core.py
index 0539fbe..b99bcb3 100644
--- a/gemlog/core.py
+++ b/gemlog/core.py
@@ -1065,13 +1065,14 @@ def _read_several(fnList, version = 0.9, require_gps = True):
                 raise CorruptRawFile(f'{fn} sample times are discontinuous, skipping this file')
 
             header_info = _calculate_drift(L, fn, require_gps)
+            SN = _read_SN(fn) # before filling in the header, in case this file is rejected
 
             if (not require_gps) or (L['gps'].shape[0] > 0) :
                 for key in header_info.keys():
                     header.loc[i, key] = header_info[key]
                 
             header.loc[i, 'num_data_pts'] = L['data'].shape[0]
-            header.loc[i, 'SN'] = _read_SN(fn)
+            header.loc[i, 'SN'] = SN
 
             M = pd.concat((M, L['metadata']))
             G = pd.concat((G, L['gps']))
@@ -1493,12 +1494,13 @@ def _find_breaks(L):
 
 def _make_empty_header(fnList):
     num_filler = np.zeros(len(fnList))
+    ms_filler = np.full(len(fnList), np.nan) # a file that is not read covers no millis
     return pd.DataFrame.from_dict({'file': fnList,
                                    'SN':['' for fn in fnList],
                                    'lat': num_filler,
                                    'lon': num_filler,
-                                   'start_ms': num_filler,
-                                   'end_ms': num_filler,
+                                   'start_ms': ms_filler,
+                                   'end_ms': ms_filler,
                                    #'drift_slope': num_filler,
                                    #'drift_intercept': num_filler,
                                    #'drift_slope_stderr': num_filler,
-- 
2.43.0


From 814cbaa6f6d60d41128207335119734b3b951fd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:30 +0000
Subject: [PATCH 05/42] fix: drop leading raw files with an unknown format
 instead of failing the whole read

---
 gemlog/core.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/gemlog/core.py b/gemlog/core.py
index b99bcb3..525eed9 100644
--- a/gemlog/core.py
+++ b/gemlog/core.py
@@ -498,13 +498,17 @@ def read_gem(path = 'raw', nums = np.arange(10000), SN = '', units = 'Pa', bitwe
     ## at this point, if we don't have any files, raise a missing file exception
     if len(fnList) == 0:
         raise MissingRawFiles(str(path) + ': ' + str(nums))
+    dropped = []
     while True:
         if len(fnList) == 0: # at this point, if we have no files, they're all corrupt. 
             raise CorruptRawFile(str(path) + ': ' + str(nums))
         try:
             version = _read_format_version(fnList[0])
+            if version not in ['0.8', '0.85', '0.85C', '0.9', '0.91', '1.10']:
+                raise CorruptRawFile('Invalid or missing data format')
             config = _read_config(fnList[0])
-        except: # if we can't read the config for the first file here, drop it and try the next one
+        except Exception as e: # if we can't read the config for the first file here, drop it and try the next one
+            dropped.append(f'Corrupt raw file {fnList[0]}: {e}')
             fnList = fnList[1:] # 
         else:
             break
@@ -514,6 +518,7 @@ def read_gem(path = 'raw', nums = np.arange(10000), SN = '', units = 'Pa', bitwe
         L = _read_several(fnList, version = version, require_gps = require_gps) # same function works for both
     else:
         raise Exception(fnList[0] + ': Invalid or missing data format')
+    L['problems'] = dropped + L['problems']
 
     ## stop early if we don't have data to process
     if len(L['data']) == 0:
-- 
2.43.0


From 05121b9a39efcb2146c01f5d03b758c48f84830d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:56 +0000
Subject: [PATCH 06/42] fix: skip malformed raw lines instead of decoding
 leftover values

---
 gemlog/parsers.pyx | 29 ++++++++++++++++++++++++++---
 1 file changed, 26 insertions(+), 3 deletions(-)

diff --git a/gemlog/parsers.pyx b/gemlog/parsers.pyx
index 030908f..50673ed 100644
--- a/gemlog/parsers.pyx
+++ b/gemlog/parsers.pyx
@@ -38,8 +38,11 @@ def parse_gemfile(filename, n_row = 1560000):
     cdef char line[256]
     cdef char* read
     cdef char line_type = 0
+    # state for skipping the remainder of a line too long for the buffer
+    cdef bint line_continues = False, continuation = False
 
     cdef int n_matched = 0
+    cdef char delim = 0
     # D placeholders
     cdef int ADC = 0
     cdef double DmsSamp = 0
@@ -72,13 +75,24 @@ def parse_gemfile(filename, n_row = 1560000):
     cdef Py_ssize_t line_number = 0
     # were this python 3.8 we could maybe use the walrus operator.  alas
     while True:
+        line[254] = 0 # set by fgets only if the buffer was filled
         read = fgets(line, sizeof(line), cfile);
         if read == NULL:
             # EOF
             break
+        continuation = line_continues
+        line_continues = (line[254] != 0) and (line[254] != 10)
+        if continuation:
+            continue
 
+        # malformed D/G/M lines are skipped, like lines of any other type
         line_type = line[0]
         if (line_type >= 97) and (line_type <= 122): # ord('a'), ord('z')
+            delim = line[1]
+            if (delim >= 97) and (delim <= 122):
+                delim = line[2]
+            if (delim != 0) and (delim != 10) and (delim != 13): # not the end of the line
+                continue
             if (line[1] < 97) or(line[1] > 122):
                 view[line_number, 0] = line[0] - 109 # diff_ADC
                 current_dD_millis = (prev_dD_millis + 10) % (2**13)
@@ -92,11 +106,16 @@ def parse_gemfile(filename, n_row = 1560000):
         elif line_type == 68:  # ord('D') == 68
             # DmsSamp,ADC
             # D7780,-1
-            n_matched = sscanf(line + 1, "%lf,%d", &DmsSamp, &ADC)
-            if n_matched == 1: # failed to read the 2-element format, try just 1 element
+            delim = 0
+            n_matched = sscanf(line + 1, "%lf%c%d", &DmsSamp, &delim, &ADC)
+            if n_matched < 1 or (n_matched == 3 and delim != 44): # ord(',') == 44
+                continue
+            if n_matched < 3 and (delim != 0) and (delim != 10) and (delim != 13):
+                continue
+            if n_matched < 3: # failed to read the 2-element format, try just 1 element
                 view[line_number, 0] = DmsSamp
                 DmsSamp = (prev_dD_millis + 10) % (2**13)
-            else: # n_matched == 2
+            else:
                 view[line_number, 0] = ADC
             millis_view[line_number] = DmsSamp
             prev_dD_millis = DmsSamp
@@ -108,6 +127,8 @@ def parse_gemfile(filename, n_row = 1560000):
                                "%lf,%lf,%d,%d,%d,%d,%d,%lf,%lf,%lf",
                                &msPPS, &msLag, &yr, &mo, &day, &hr, &mn,
                                &sec, &lat, &lon)
+            if n_matched != 10 or line[1] != 44:
+                continue
             view[line_number, 0] = msLag
             view[line_number, 1] = yr
             view[line_number, 2] = mo
@@ -128,6 +149,8 @@ def parse_gemfile(filename, n_row = 1560000):
                                &ms, &batt, &temp, &A2, &A3, &maxLag,
                                &minFree, &maxUsed, &maxOver, &gpsFlag,
                                &freeStack1, &freeStackIdle)
+            if n_matched != 12 or line[1] != 44:
+                continue
             view[line_number, 0] = batt
             view[line_number, 1] = temp
             view[line_number, 2] = A2
-- 
2.43.0


From cd43d447e01045ae197f9ff60f3c27e915412e3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:57 +0000
Subject: [PATCH 07/42] fix: compact raw files are labelled with a readable
 format and decode like the original

---
 gemlog/gemlog_aux.py | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/gemlog/gemlog_aux.py b/gemlog/gemlog_aux.py
index bf94719..cda376f 100644
--- a/gemlog/gemlog_aux.py
+++ b/gemlog/gemlog_aux.py
@@ -424,18 +424,29 @@ def _convert_raw_091_110(infile, outfile):
     #Wall time: 22.2 s
 
 
-    output_format = '1.1'
+    output_format = '1.10'
     input_format = gemlog.core._read_format_version(infile)
     if input_format not in ['0.85C', '0.9', '0.91']:
         raise Exception('Invalid input format %s' % input_format)
     millis_current = 0
-    with open(outfile, 'w') as OF, open(infile, 'r') as IF:
+    # latin-1 and newline settings: preserve every byte, even in damaged lines
+    with open(outfile, 'w', encoding = 'latin-1', newline = '') as OF, open(infile, 'r', encoding = 'latin-1', newline = '\n') as IF:
         for i, line in enumerate(IF):
-            if (line[0] == 'D'):
+            if (line[0] == 'D') and (i > 0):
                 l = line.split(',')
-                p = int(l[1]) # pressure in counts
                 millis_previous = millis_current
-                millis_current = int(l[0][1:]) # millis count right after D
+                try:
+                    p = int(l[1]) # pressure in counts
+                    millis_current = int(l[0][1:]) # millis count right after D
+                    if (line.rstrip('\r\n') != 'D%d,%d' % (millis_current, p)) or not (0 <= millis_current < 2**13):
+                        raise ValueError('nonstandard data line')
+                except (ValueError, IndexError):
+                    millis_current = None # don't encode the next line relative to this one
+                    OF.write(line)
+                    continue
+                if millis_previous is None:
+                    OF.write(line)
+                    continue
                 diff_millis = (millis_current - millis_previous) % 2**13
                 # check to see if this line can be converted to new format
                 if (np.abs(p) <= 12) and (np.abs(diff_millis - 10) <= 12) and (i > 0): 
@@ -452,6 +463,8 @@ def _convert_raw_091_110(infile, outfile):
                 else:
                     raise Exception('Corrupt input file head')
             else: # this is not a data line, so don't change it
+                if 'a' <= line[0] <= 'z': # already compact: changes the reader's millis count
+                    millis_current = None
                 OF.write(line)
                 
             
-- 
2.43.0


From 068eb9599bd1292a4a6e2dbec604f389d008dec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:45 +0000
Subject: [PATCH 08/42] fix: gem_cat keeps every data, GPS and metadata line of
 appended files

Format 0.91 files could not be appended, the compact first lines of 1.10 files
and all lines before the first D line were dropped, damaged bytes aborted the
merge, and a file without a final newline swallowed the next file's first line.
---
 gemlog/gem_cat.py | 89 ++++++++++++++++++++++++-----------------------
 1 file changed, 45 insertions(+), 44 deletions(-)

diff --git a/gemlog/gem_cat.py b/gemlog/gem_cat.py
index a6f96d5..962a7c7 100644
--- a/gemlog/gem_cat.py
+++ b/gemlog/gem_cat.py
@@ -9,6 +9,7 @@ with warnings.catch_warnings():
     warnings.simplefilter("ignore")
 import obspy
 import sys
+import re
 import shutil
 from gemlog.core import _read_single, _read_SN, _read_format_version
 from gemlog.exceptions import EmptyRawFile, CorruptRawFile
@@ -62,13 +63,12 @@ def gem_cat(input_dir, output_dir, ext = '', cat_all = False):
                 AppendFile(gem_files[k], out_file, gem_files[k-1])
             continue
 
-        try:
-            ## here and elsewhere, delimiter='\t' is used as a dummy to read each line as a whole string (read_csv doesn't accept '\n')
-            lines = pd.read_csv(gem_files[k], delimiter = '\t', dtype = 'str', names = ['line'])
-        except:
+        with open(gem_files[k], 'rb') as file:
+            lines = file.readlines()
+        if len(lines) == 0:
             raise EmptyRawFile(gem_files[k])
         #gps_grep = grepl("^G.*-?\\d+\\.\\d+,-?\\d+\\.\\d+$", lines)
-        gps_grep = lines.line.str.contains('^G')
+        gps_grep = [line.startswith(b'G') for line in lines]
         ## if no files have been processed yet and the current file has no GPS data, skip it
    
         if (sum(gps_grep) == 0) & (len(out_file) == 0):
@@ -116,51 +116,52 @@ def AppendFile(infile, outfile, prev_infile):
         os.makedirs(outpath)
         
     format = _read_format_version(infile)
-    if format in ['0.85C', '0.9', '0.91', '1.10']:
-        ## find the pressure at the end of the previous file
-        p_start = int(_read_single(prev_infile, require_gps = False, version = format)['data'][-1,1])
+    with open(outfile, 'ab+') as OF, open(infile, 'rb') as IF:
+        ## if the outfile ends in an unfinished line, finish it
+        if OF.seek(0, os.SEEK_END) > 0:
+            OF.seek(-1, os.SEEK_END)
+            if OF.read(1) != b'\n':
+                OF.write(b'\n')
 
-        ## read the first data line of the infile and convert it to an ADC reading difference
-        j=0
-        while True:
-            ###################
-            linetype = pd.read_csv(infile, skiprows = j, delimiter = '\t', nrows=1, dtype = 'str', names=['s']).s[0][0]
-            ###############
-            if linetype == 'D':
-                break
-            j += 1
+        if format in ['0.85C', '0.9', '0.91', '1.10']:
+            ## find the pressure at the end of the previous file
+            read_version = '0.9' if format == '0.91' else format # same file structure
+            p_start = int(_read_single(prev_infile, require_gps = False, version = read_version)['data'][-1,1])
 
-        ## adjust the data line and append it to the outfile
-        s = pd.read_csv(infile, delimiter = ',', nrows=1, skiprows=j, dtype = 'str', names=['c1','c2'])
-        with open(outfile, 'a') as OF, open(infile, 'r') as IF:
-            OF.write(s['c1'].iloc[0] + ',' + str(int(s['c2'].iloc[0])-p_start) + '\n')
-            ## append the rest of the file
-            #system(paste0('tail -n +', j+2, ' ', infile, ' >> ', outfile))
-            for k, line in enumerate(IF):
-                if k >= (j+1):
-                    OF.write(line)
-                #if k > 10: # testing only
-                #    break
-    else:
-        ## earlier format version
-        ## Find the end of the header and append the infile to the outfile past that point
-        j=0
-        while True:
-            linetype = pd.read_csv(infile, skiprows = j, delimiter = '\t', nrows=1, dtype = 'str', names=['s']).s[0][0]
-            if linetype == 'D':
-                break
-            j += 1
-        
-        ## append the rest of the file
-        #system(paste0('tail -n +', j+1, ' ', infile, ' >> ', outfile))
-        with open(outfile, 'a') as OF, open(infile, 'r') as IF:
-            #system(paste0('tail -n +', j+2, ' ', infile, ' >> ', outfile))
-            for k, line in enumerate(IF):
-                if k >= j:
+            ## append everything but the header, converting the ADC reading of the first data line to a difference
+            found_data = False
+            for line in IF:
+                if not found_data:
+                    if line[:1] in [b'#', b'S', b'C']:
+                        continue
+                    millis, ADC = _parse_data_line(line)
+                    if ADC is not None:
+                        line = b'D%s,%d\n' % (millis, ADC - p_start)
+                        found_data = True
+                OF.write(line)
+        else:
+            ## earlier format version: absolute readings, so append everything but the header as is
+            for line in IF:
+                if line[:1] not in [b'#', b'S', b'C']:
                     OF.write(line)
 
     return
 
+def _parse_data_line(line):
+    ## Find the millisecond count (as text) and ADC difference of a file's first data line in
+    ## format 0.85C or later, as the raw file reader would. ADC is None in any other line.
+    code = line.rstrip(b'\r\n')
+    if re.fullmatch(b'[a-z]{1,2}', code):
+        millis = 10 + (code[0] - 109 if len(code) == 2 else 0)
+        return b'%d' % (millis % 2**13), code[-1] - 109
+    match = re.match(rb'D\s*([-+]?\d+(?:\.\d*)?),\s*([-+]?\d+)', code)
+    if match:
+        return match.group(1), int(match.group(2))
+    match = re.fullmatch(rb'D\s*([-+]?\d+)', code)
+    if match:
+        return b'10', int(match.group(1))
+    return None, None
+
 def print_call():
     print('gem_cat -i <input_dir> -o <output_dir> -e <ext>')
     print('input_dir: raw gem directory')
-- 
2.43.0


From e84b59f7923d8f349d5dc3df1442877d39765782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:45 +0000
Subject: [PATCH 09/42] fix: gem_cat refuses to merge a folder into itself,
 which overwrote raw files

---
 gemlog/gem_cat.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gemlog/gem_cat.py b/gemlog/gem_cat.py
index 962a7c7..99069a4 100644
--- a/gemlog/gem_cat.py
+++ b/gemlog/gem_cat.py
@@ -41,6 +41,8 @@ def gem_cat(input_dir, output_dir, ext = '', cat_all = False):
             raise Exception('Output path ' + output_dir + ' does not exist and cannot be created')
         else:
             print('Created output folder ' + output_dir)
+    if os.path.realpath(input_dir) == os.path.realpath(output_dir):
+        raise Exception('Output path must differ from the input path')
     gem_files = sorted(glob.glob(input_dir + '/' + 'FILE[0-9][0-9][0-9][0-9].' + ext + '*'))
     
     has_gps = np.zeros(len(gem_files))
-- 
2.43.0


From aa2fe5a132cd684b0887d3a4d3ebb9f2a4a63b7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:31 +0000
Subject: [PATCH 10/42] fix: ims_noise accepts the documented model name
 'medium'

---
 gemlog/gemlog_aux.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gemlog/gemlog_aux.py b/gemlog/gemlog_aux.py
index cda376f..5934927 100644
--- a/gemlog/gemlog_aux.py
+++ b/gemlog/gemlog_aux.py
@@ -299,7 +299,7 @@ def ims_noise(model = 'low', freq = None, spectype = 'power', freq_min = None, f
     freq_in = noise_spec['f']
     if model.lower() in ['low', 'min']:
         power_in = 10**noise_spec['min']
-    elif model.lower() == 'med':
+    elif model.lower() in ['med', 'medium']:
         power_in = 10**noise_spec['med']
     elif model.lower() in ['high', 'hi', 'max']:
         power_in = 10**noise_spec['max']
-- 
2.43.0


From f5bb70c047b5b70eac77e13945697c8f901cbe24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:51 +0000
Subject: [PATCH 11/42] fix: noise over a band is the exact integral of the
 interpolated spectrum

---
 gemlog/gemlog_aux.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gemlog/gemlog_aux.py b/gemlog/gemlog_aux.py
index 5934927..97cc6c5 100644
--- a/gemlog/gemlog_aux.py
+++ b/gemlog/gemlog_aux.py
@@ -316,7 +316,8 @@ def _noise_spectrum_helper(freq_in, power_in, freq_out, spectype, freq_min, freq
     spec_function = scipy.interpolate.CubicSpline(freq_in, power_in, extrapolate = False)
     power = spec_function(freq_out)
     if (freq_min is not None) and (freq_max is not None):
-        noise = scipy.integrate.quad(spec_function, freq_min, freq_max)[0] # 'quad' outputs are the estimated integral and error bar
+        # exact integral of the spline: adaptive quadrature misses much of it over wide bands
+        noise = float(spec_function.integrate(freq_min, freq_max))
     else:
         noise = np.nan
 
-- 
2.43.0


From 014ce23e22dd6cc9e39a2c2f01753c651aae6f9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:42 +0000
Subject: [PATCH 12/42] fix: apply_function_windows analyses a recording
 exactly one window long instead of dividing by zero

---
 gemlog/xcorr.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gemlog/xcorr.py b/gemlog/xcorr.py
index 82bedc5..1657709 100644
--- a/gemlog/xcorr.py
+++ b/gemlog/xcorr.py
@@ -404,7 +404,8 @@ def apply_function_windows(st, f, win_length_sec, overlap = 0.5, args = {}):
     num_windows = 1 + int(np.ceil((data_length_sec - win_length_sec) / (win_length_sec * (1 - overlap)) - eps))
     output_dict = {'t_mid':[]}
     for i in range(num_windows):
-        win_start = t1 + i*(data_length_sec - win_length_sec) / (num_windows-1)
+        ## a recording that fits in a single window has no spacing between windows
+        win_start = t1 + i*(data_length_sec - win_length_sec) / max(num_windows-1, 1)
         st_tmp = st.slice(win_start-eps, win_start + win_length_sec - eps, nearest_sample = False)
         win_dict = f(st_tmp, args)
         #if i == 0:
-- 
2.43.0


From 7f2df3970c8149153f5a702ba25da54562d1116c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:42 +0000
Subject: [PATCH 13/42] fix: xcorr_one_day uses (and validates) upsample_ratio
 whether or not overlap is given

---
 gemlog/xcorr.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gemlog/xcorr.py b/gemlog/xcorr.py
index 1657709..0e65fa1 100644
--- a/gemlog/xcorr.py
+++ b/gemlog/xcorr.py
@@ -314,11 +314,11 @@ def xcorr_one_day(st, args = {}):
     fh = args.get('fh') if args.get('fh') is not None else 40
     win_length_sec = args.get('win_length_sec') if args.get('win_length_sec') is not None else 5
     overlap = args.get('overlap') if args.get('overlap') is not None else 0
-    upsample_ratio = args.get('upsample_ratio') if args.get('overlap') is not None else 1
+    upsample_ratio = args.get('upsample_ratio') if args.get('upsample_ratio') is not None else 1
     _validate_inputs(fl, fh, win_length_sec, overlap, upsample_ratio)
 
     if upsample_ratio != 1:
-        st = upsample_stream(st, args['upsample_ratio'])
+        st = upsample_stream(st, upsample_ratio)
         
     st.detrend('linear')
 
-- 
2.43.0


From 83596b94829cb925c3ef84d7b27a1d8f51686098 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:42 +0000
Subject: [PATCH 14/42] fix: reject a NaN window length

---
 gemlog/xcorr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gemlog/xcorr.py b/gemlog/xcorr.py
index 0e65fa1..7edb887 100644
--- a/gemlog/xcorr.py
+++ b/gemlog/xcorr.py
@@ -289,7 +289,7 @@ def _validate_inputs(fl, fh, win_length_sec, overlap, upsample_ratio):
         raise Exception(f'fl ({fl}) and fh ({fh}) must both be non-negative numbers or nan, and fh > fl')
 
     try:
-        if win_length_sec <= 0:
+        if not (win_length_sec > 0): # also rejects nan
             raise Exception(f'win_length_sec ({win_length_sec}) must be a positive number')
     except:
         raise Exception(f'win_length_sec ({win_length_sec}) must be a positive number')
-- 
2.43.0


From 6a872b1fb134a3ca7efb24504264a8e2cdaccc1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:42 +0000
Subject: [PATCH 15/42] fix: a pattern that begins like a channel ID is
 searched, not taken as an exact ID

---
 gemlog/xcorr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gemlog/xcorr.py b/gemlog/xcorr.py
index 7edb887..622c07d 100644
--- a/gemlog/xcorr.py
+++ b/gemlog/xcorr.py
@@ -446,7 +446,7 @@ def _check_input_IDs(file_metadata_df, IDs, exclude_IDs):
             ## first, check to see if the ID is formatted exactly per naming convention
             ## if yes, pass it unmodified.
             ## https://ds.iris.edu/ds/nodes/dmc/data/formats/seed/
-            if re.match(r'\w{0,2}\.\w{1,5}\.\w{0,2}\.\w{3}', ID):
+            if re.fullmatch(r'\w{0,2}\.\w{1,5}\.\w{0,2}\.\w{3}', ID):
                 output_IDs.append(ID)
 
             ## Next, search for IDs in the data that match the provided ID.
-- 
2.43.0


From 26716b0794858b67500da1a0f2151660bee60027 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:42 +0000
Subject: [PATCH 16/42] fix: loop_through_days no longer analyses parts of days
 twice when data start after midnight

---
 gemlog/xcorr.py | 13 ++-----------
 1 file changed, 2 insertions(+), 11 deletions(-)

diff --git a/gemlog/xcorr.py b/gemlog/xcorr.py
index 622c07d..b51034b 100644
--- a/gemlog/xcorr.py
+++ b/gemlog/xcorr.py
@@ -231,17 +231,8 @@ def loop_through_days(function, filenames, t1 = '1970-01-01', t2 = '9999-12-31',
             break
     day_starts = np.array(day_starts)
 
-    day_ends = [day_starts[0]+86400] # bug here; causes problems with part-day files. Only run full-day files.
-    #day_ends = [day_starts[0].replace(hour=0, minute=0, second=0, microsecond=0)] # this fix didn't work
-
-    while True:
-        new_time = (day_ends[-1]+86400+2).replace(hour=0, minute=0, second=0) # add 24 hours + 2 sec, then round down
-        if new_time < t2:
-            day_ends.append(new_time)
-        else:
-            day_ends.append(t2)
-            break
-    day_ends = np.array(day_ends)
+    ## each day ends where the next one starts
+    day_ends = np.array(list(day_starts[1:]) + [t2])
 
     files_read = []
     output_list = []
-- 
2.43.0


From 3c6b3a6fff6e5a5d1cec599fbbe063ef6d9beb16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:24 +0000
Subject: [PATCH 17/42] fix: read_gps reads times without the date_parser
 option, which pandas has removed

---
 gemlog/gem_network.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gemlog/gem_network.py b/gemlog/gem_network.py
index b032b28..6bee446 100644
--- a/gemlog/gem_network.py
+++ b/gemlog/gem_network.py
@@ -426,7 +426,7 @@ def read_gps(gps_dir_pattern, SN):
                 fnList = []
         if len(fnList) > 0: # if any gps files matching SN are found, read and append the last
             gpsTable = pd.concat([gpsTable,
-                                  pd.read_csv(fnList[-1], parse_dates = ['t'], date_parser = obspy.UTCDateTime)], ignore_index=True)
+                                  pd.read_csv(fnList[-1], converters = {'t': obspy.UTCDateTime})], ignore_index=True)
     return gpsTable
 ReadLoggerGPS = read_gps # alias; v1.0.0
 
-- 
2.43.0


From e155d7e96bd6053b48182cbb24bc2829f2f70c08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:24 +0000
Subject: [PATCH 18/42] fix: read_gps uses only GPS files of the given serial
 number, not any file whose name begins with it

---
 gemlog/gem_network.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gemlog/gem_network.py b/gemlog/gem_network.py
index 6bee446..b89f7d7 100644
--- a/gemlog/gem_network.py
+++ b/gemlog/gem_network.py
@@ -417,10 +417,10 @@ def read_gps(gps_dir_pattern, SN):
     gpsTable = pd.DataFrame(columns=['year', 'date', 'lat', 'lon', 't'])
     for gpsDir in gpsDirList:
         if os.path.isdir(gpsDir):
-            fnList = sorted(glob.glob(gpsDir + '/' + SN + '*'))
+            fnList = sorted(glob.glob(gpsDir + '/' + SN + 'gps*txt'))
         else:
             # in case the user provides the gps filename directly. requires that the filename start with SN.
-            if pathlib.Path(gpsDir).name[:3] == SN:
+            if pathlib.Path(gpsDir).name.split('gps')[0] == SN:
                 fnList = [gpsDir]
             else:
                 fnList = []
-- 
2.43.0


From 0e685c8faa09a74fb79c02ed3d7b43507c928979 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:24 +0000
Subject: [PATCH 19/42] fix: summarize_gps_terminal passes the lists of serial
 numbers, not the unsplit option texts

---
 gemlog/gem_network.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gemlog/gem_network.py b/gemlog/gem_network.py
index b89f7d7..755a81f 100644
--- a/gemlog/gem_network.py
+++ b/gemlog/gem_network.py
@@ -635,7 +635,7 @@ def summarize_gps_terminal(input = sys.argv[1:]):
 
     coords = summarize_gps(gps_folder, station_info = station_info_file,
                            output_file = output_file + '.csv', t1 = args.t1, t2 = args.t2,
-                           include_SN = args.include_SNs, exclude_SN = args.exclude_SNs)
+                           include_SN = include_SNs, exclude_SN = exclude_SNs)
     response = gemlog.get_gem_response(gain = 'high')
     if 'station' not in coords.keys():
         coords['station'] = coords['SN']
-- 
2.43.0


From 764f0bb1c2a51b5c0231e792c957f337f41bf4da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:24 +0000
Subject: [PATCH 20/42] fix: station tables given as DataFrames may have the
 documented column names in any capitalisation

---
 gemlog/gem_network.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/gemlog/gem_network.py b/gemlog/gem_network.py
index 755a81f..fa67ac7 100644
--- a/gemlog/gem_network.py
+++ b/gemlog/gem_network.py
@@ -144,19 +144,19 @@ def _fix_station_info_keys(d):
     allowed_keys = ['SN', 'network', 'station', 'location', 'elevation']
     for key in allowed_keys:
         ## for the given allowed key, find the existing key that matches it
-        w = [test_key.lower()[:2] == key.lower()[:2] for test_key in d.keys()]
+        w = [test_key.lower() == key.lower() for test_key in d.keys()]
         if any(w):
             ## rename that key to the standard name
             d[key] = d.pop(list(d.keys())[np.where(w)[0][0]])
     return d
 
 def _get_station_info(station_info):
-    required_keys = ['sn', 'network', 'station', 'location']
+    required_keys = ['SN', 'network', 'station', 'location']
     if type(station_info) == str:
         print('Reading file %s' % station_info)
         header_df = pd.read_csv(station_info, nrows = 1, header = None, index_col = False)
         header_list = [header_df[key][0] for key in header_df.keys()]
-        if all([i.lower() in (required_keys + ['elevation']) for i in header_list]): # file has header line
+        if all([i.lower() in ['sn', 'network', 'station', 'location', 'elevation'] for i in header_list]): # file has header line
             print('File has valid header, using that for column names')
             station_info = pd.read_csv(station_info, dtype = {key:'str' for key in header_list}, keep_default_na = False)
         else:
@@ -173,7 +173,7 @@ def _get_station_info(station_info):
     elif (type(station_info) is not pd.DataFrame):
         raise Exception('invalid station_info input')
     else:
-        #station_info = _fix_station_info_keys(station_info)
+        station_info = _fix_station_info_keys(station_info.copy())
         if any([key not in station_info.keys() for key in required_keys]):
             raise Exception('invalid station_info input')
     # if location and network fields are blank in file, they are interpreted as nan and must be
-- 
2.43.0


From 907c2a7b72835288094eed2d475b8a42eba2bd69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:24 +0000
Subject: [PATCH 21/42] fix: station tables without a header line can be read

---
 gemlog/gem_network.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/gemlog/gem_network.py b/gemlog/gem_network.py
index fa67ac7..49b974a 100644
--- a/gemlog/gem_network.py
+++ b/gemlog/gem_network.py
@@ -154,7 +154,7 @@ def _get_station_info(station_info):
     required_keys = ['SN', 'network', 'station', 'location']
     if type(station_info) == str:
         print('Reading file %s' % station_info)
-        header_df = pd.read_csv(station_info, nrows = 1, header = None, index_col = False)
+        header_df = pd.read_csv(station_info, nrows = 1, header = None, index_col = False, dtype = 'str', keep_default_na = False)
         header_list = [header_df[key][0] for key in header_df.keys()]
         if all([i.lower() in ['sn', 'network', 'station', 'location', 'elevation'] for i in header_list]): # file has header line
             print('File has valid header, using that for column names')
@@ -162,10 +162,10 @@ def _get_station_info(station_info):
         else:
             if len(header_list) == 4:
                 print('File does not have a valid header, using default columns [SN, network, station, location]')
-                station_info = pd.read_csv(station_info, names = required_keys, dtype = {key:'str' for key in header_list}, keep_default_na = False, index_col = False)
+                station_info = pd.read_csv(station_info, names = required_keys, dtype = 'str', keep_default_na = False, index_col = False)
             elif len(header_list) == 5:
                 print('File does not have a valid header, using default columns [SN, network, station, location, elevation]')
-                station_info = pd.read_csv(station_info, names = required_keys + ['elevation'], dtype = {key:'str' for key in header_list}, keep_default_na = False, index_col = False)
+                station_info = pd.read_csv(station_info, names = required_keys + ['elevation'], dtype = 'str', keep_default_na = False, index_col = False)
             else:
                 raise Exception('invalid station_info file; must have 4 or 5 columns or valid header')
         ## if any keys are capitalized or abbreviated wrong, correct them
-- 
2.43.0


From 4f8a65d99e8396ba47241920e15651c11e47b12a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:24 +0000
Subject: [PATCH 22/42] fix: station files may omit the network and location
 columns, as documented

---
 gemlog/gem_network.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/gemlog/gem_network.py b/gemlog/gem_network.py
index 49b974a..56a21c5 100644
--- a/gemlog/gem_network.py
+++ b/gemlog/gem_network.py
@@ -170,6 +170,10 @@ def _get_station_info(station_info):
                 raise Exception('invalid station_info file; must have 4 or 5 columns or valid header')
         ## if any keys are capitalized or abbreviated wrong, correct them
         station_info = _fix_station_info_keys(station_info)
+        ## network and location columns are optional
+        for key in ['network', 'location']:
+            if key not in station_info.keys():
+                station_info[key] = ''
     elif (type(station_info) is not pd.DataFrame):
         raise Exception('invalid station_info input')
     else:
-- 
2.43.0


From 3c355922a236095f2f2598505e5d0586b610141e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:24 +0000
Subject: [PATCH 23/42] fix: a blank elevation in a station file means -9999
 instead of an error

---
 gemlog/gem_network.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/gemlog/gem_network.py b/gemlog/gem_network.py
index 56a21c5..1dda9b5 100644
--- a/gemlog/gem_network.py
+++ b/gemlog/gem_network.py
@@ -185,8 +185,7 @@ def _get_station_info(station_info):
     if 'elevation' not in station_info.keys():
         station_info['elevation'] = np.zeros(station_info.shape[0]) - 9999
         
-    if station_info['elevation'].dtype == 'str':
-        station_info['elevation'] = station_info['elevation'].astype('float')
+    station_info['elevation'] = station_info['elevation'].replace('', np.nan).astype('float')
         
     station_info.loc[station_info.location.isna(), 'location'] = ''
     station_info.loc[station_info.network.isna(), 'network'] = ''
-- 
2.43.0


From 1f0135f45ead69f86ca2f4ccff32fc23270e55a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:24 +0000
Subject: [PATCH 24/42] fix: make_gem_inventory skips networks none of whose
 stations have coordinates

---
 gemlog/gem_network.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gemlog/gem_network.py b/gemlog/gem_network.py
index 1dda9b5..37bca74 100644
--- a/gemlog/gem_network.py
+++ b/gemlog/gem_network.py
@@ -275,7 +275,9 @@ def make_gem_inventory(station_info, coords, response = 'default'):
             station.start_date = np.min([channel.start_date for channel in station.channels])
             station.end_date = np.max([channel.end_date for channel in station.channels])
             network.stations.append(station)
-        ## append the current network to the inventory
+        ## append the current network to the inventory, unless it is empty
+        if len(network.stations) == 0:
+            continue
         network.start_date = np.min([station.start_date for station in network.stations])
         network.end_date = np.max([station.end_date for station in network.stations])
         inventory.networks.append(network)
-- 
2.43.0


From 060b8ce6688edc9f159b08245847782e201e8bc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:27 +0000
Subject: [PATCH 25/42] fix: station tables given as DataFrames are looked up
 by row position whatever their index

---
 gemlog/gem_network.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gemlog/gem_network.py b/gemlog/gem_network.py
index 37bca74..979cc70 100644
--- a/gemlog/gem_network.py
+++ b/gemlog/gem_network.py
@@ -177,7 +177,7 @@ def _get_station_info(station_info):
     elif (type(station_info) is not pd.DataFrame):
         raise Exception('invalid station_info input')
     else:
-        station_info = _fix_station_info_keys(station_info.copy())
+        station_info = _fix_station_info_keys(station_info.reset_index(drop = True))
         if any([key not in station_info.keys() for key in required_keys]):
             raise Exception('invalid station_info input')
     # if location and network fields are blank in file, they are interpreted as nan and must be
-- 
2.43.0


From 1eeabf3bfa678d815ab7465c0ee60e385a44b3ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:42 +0000
Subject: [PATCH 26/42] fix: make_gem_inventory's default response is the Gem's
 response, not the text 'default'

---
 gemlog/gem_network.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gemlog/gem_network.py b/gemlog/gem_network.py
index 979cc70..1f66a9d 100644
--- a/gemlog/gem_network.py
+++ b/gemlog/gem_network.py
@@ -223,6 +223,8 @@ def make_gem_inventory(station_info, coords, response = 'default'):
     elif any([key not in coords.keys() for key in ['lat', 'lon', 'elevation']]):
         raise Exception("invalid coords; must contain keys 'lat', 'lon', 'elevation'")
     
+    if type(response) is str and response == 'default':
+        response = get_gem_response()
     ## create the inventory and loop through all the networks, stations, and locations in it
     inventory = obspy.Inventory()
     all_networks = _unique(station_info['network'])
-- 
2.43.0


From 5d09a7e26f986ef01dbc1b0a11e6a0c891bb4a09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:28 +0000
Subject: [PATCH 27/42] fix: a TXT raw file is not attributed to an instrument
 whose serial number its own merely begins with

---
 gemlog/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gemlog/core.py b/gemlog/core.py
index 525eed9..c9371df 100644
--- a/gemlog/core.py
+++ b/gemlog/core.py
@@ -633,7 +633,7 @@ def _find_nonmissing_files(path, SN, nums):
     fnList = np.array(fnList)
     
     ## find out what all the files' SNs are
-    ext = np.array([x[-3:] for x in fnList])
+    ext = [x[-3:] for x in fnList] # list, not np.array: serial numbers read below may be longer than 3 characters
     for i in range(len(ext)):
         if ext[i] == 'TXT':
             try:
-- 
2.43.0


From 0b97fa12c9d3687419672c5ac8362f5440b56266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:28 +0000
Subject: [PATCH 28/42] fix: raw folders whose names contain glob characters
 ([, ], * or ?) can be read

---
 gemlog/core.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/gemlog/core.py b/gemlog/core.py
index c9371df..3bad278 100644
--- a/gemlog/core.py
+++ b/gemlog/core.py
@@ -130,7 +130,7 @@ def convert(rawpath = '.', convertedpath = 'converted', metadatapath = 'metadata
     ## make sure the raw directory exists and has real data
     if not os.path.isdir(rawpath):
         raise MissingRawFiles('Raw directory ' + rawpath + ' does not exist')
-    if len(glob.glob(rawpath + '/FILE' +'[0-9]'*4 + '.???')) == 0:
+    if len(glob.glob(glob.escape(rawpath) + '/FILE' +'[0-9]'*4 + '.???')) == 0:
         raise MissingRawFiles('No data files found in directory ' + rawpath)
     try:
         SN = str(SN)
@@ -148,10 +148,10 @@ def convert(rawpath = '.', convertedpath = 'converted', metadatapath = 'metadata
     
     ## find a list of possibly eligible raw files 
     if (type(SN) is not str) or (len(SN) != 3): # check that SN is appropriately formatted...this should always happen
-        fn = glob.glob(rawpath + '/FILE' +'[0-9]'*4 + '.???')
+        fn = glob.glob(glob.escape(rawpath) + '/FILE' +'[0-9]'*4 + '.???')
     else:
-        fn = glob.glob(rawpath + '/FILE' +'[0-9]'*4 + '.' + SN) + \
-            glob.glob(rawpath + '/FILE' +'[0-9]'*4 + '.TXT')
+        fn = glob.glob(glob.escape(rawpath) + '/FILE' +'[0-9]'*4 + '.' + SN) + \
+            glob.glob(glob.escape(rawpath) + '/FILE' +'[0-9]'*4 + '.TXT')
     
     ## filter out raw files whose serial numbers don't match SN
     fn_new = []
@@ -628,7 +628,7 @@ def _read_config(fn):
 def _find_nonmissing_files(path, SN, nums):
     ## list all Gem files in the path
     #fnList = glob.glob(path + '/' + 'FILE[0-9][0-9][0-9][0-9].[0-9][0-9][0-9]')
-    fnList = glob.glob(path + '/' + 'FILE[0-9][0-9][0-9][0-9].???')
+    fnList = glob.glob(glob.escape(path) + '/' + 'FILE[0-9][0-9][0-9][0-9].???')
     fnList.sort()
     fnList = np.array(fnList)
     
-- 
2.43.0


From 34eb7a5aed7521ba993382e63c4ee7b754b92dcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:28 +0000
Subject: [PATCH 29/42] fix: gemconvert converts by default the serial numbers
 of the raw files, whatever else is in the folder

---
 gemlog/gemconvert.py | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/gemlog/gemconvert.py b/gemlog/gemconvert.py
index 32e9573..57803ba 100755
--- a/gemlog/gemconvert.py
+++ b/gemlog/gemconvert.py
@@ -3,7 +3,7 @@
 import sys # should always be available, doesn't need to be in "try"
 try:
     import numpy as np
-    import os, getopt, logging, platform
+    import os, getopt, logging, platform, re
     #import glob, traceback # apparently not needed anymore
     import gemlog
     from concurrent.futures import ProcessPoolExecutor
@@ -17,6 +17,20 @@ def find_SN(x):
     # find the serial number of a raw data file
     return x[9:13]
 
+def find_all_SNs(inputdir, file_list):
+    # list the serial numbers of the raw data files FILEnnnn.SSS (SSS is the serial number) and
+    # FILEnnnn.TXT (serial number is inside the file) in inputdir; other files are ignored
+    SN_list = []
+    for x in file_list:
+        if re.fullmatch('FILE[0-9]{4}[.]TXT', x):
+            try:
+                SN_list.append(gemlog.core._read_SN(os.path.join(inputdir, x)))
+            except Exception: # corrupt or empty file
+                pass
+        elif re.fullmatch('FILE[0-9]{4}[.][0-9]{3}', x):
+            SN_list.append(find_SN(x))
+    return SN_list
+
 def unique(list1): 
     unique, index = np.unique(list1, return_index=True)
     return sorted(unique)
@@ -147,7 +161,7 @@ def main(argv = None):
         sys.exit()
 
     if(len(SN_list) == 0): # if user does not provide SN_list, take unique SNs in order
-        SN_list = unique([find_SN(file_list[i]) for i in range(len(file_list))]) # set takes unique values
+        SN_list = unique(find_all_SNs(inputdir, file_list)) # set takes unique values
         SN_list.sort()
     else: # if user provided SNs, keep the order, but take unique values
         SN_list = unique(SN_list)
-- 
2.43.0


From a3ef957fef09ad32711a1b0cd6bfd0e6ea0de7d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:28 +0000
Subject: [PATCH 30/42] fix: gemconvert accepts the long options that its help
 lists

---
 gemlog/gemconvert.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gemlog/gemconvert.py b/gemlog/gemconvert.py
index 57803ba..696b1f3 100755
--- a/gemlog/gemconvert.py
+++ b/gemlog/gemconvert.py
@@ -102,7 +102,7 @@ def main(argv = None):
 
     ## parse options selected by user
     try:
-        opts, args = getopt.getopt(argv,"hdti:s:x:c:o:f:l:p:",["inputdir=","serialnumber="])
+        opts, args = getopt.getopt(argv,"hdti:s:x:c:o:f:l:p:",["help","debug","test","inputdir=","serialnumbers=","exclude_serialnumbers=","codesfile=","outputdir=","format=","length=","parallel="])
     except getopt.GetoptError:
         print_call()
         sys.exit(2)
-- 
2.43.0


From 0e97b910bbbd3317b61deffbebeed412c735acac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:28 +0000
Subject: [PATCH 31/42] fix: an invalid serial number does not stop gemconvert
 with a codes file from converting the others

---
 gemlog/gemconvert.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gemlog/gemconvert.py b/gemlog/gemconvert.py
index 696b1f3..6e7362e 100755
--- a/gemlog/gemconvert.py
+++ b/gemlog/gemconvert.py
@@ -194,7 +194,7 @@ def main(argv = None):
         new_SN_list = []
         skip_SN = []
         for SN in SN_list:
-            if any(station_info.SN.astype(int) == int(SN)):
+            if SN.isdecimal() and any(station_info.SN.astype(int) == int(SN)):
                 i = np.where(station_info.SN.astype(int) == int(SN))[0][0]
                 station_list.append(station_info.loc[i,'station'])
                 network_list.append(station_info.loc[i,'network'])
-- 
2.43.0


From d4a62fc6a2b12df28d49f7226335723f1d4d7372 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:35 +0000
Subject: [PATCH 32/42] fix: convert accepts start and end times given as
 numbers

---
 gemlog/core.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/gemlog/core.py b/gemlog/core.py
index 3bad278..1803a99 100644
--- a/gemlog/core.py
+++ b/gemlog/core.py
@@ -222,6 +222,10 @@ def convert(rawpath = '.', convertedpath = 'converted', metadatapath = 'metadata
 
     if(np.isinf(float(t2))):
         t2 = obspy.core.UTCDateTime.strptime('9999-12-31 23:59:59', '%Y-%m-%d %H:%M:%S') # timekeeping apocalypse
+
+    ## t1 and t2 may be given as numbers
+    t1 = obspy.core.UTCDateTime(t1)
+    t2 = obspy.core.UTCDateTime(t2)
   
     wsn = 0
     while(len(SN) < 3): # take the first non-NA SN. This is important because there can be blank files in there.
-- 
2.43.0


From 911b2695dcaaa9cb31f831317ee74b0a9ab83451 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:35 +0000
Subject: [PATCH 33/42] fix: convert writes all the samples up to the end time,
 and none outside the requested period

---
 gemlog/core.py | 29 ++++++++++++++++++-----------
 1 file changed, 18 insertions(+), 11 deletions(-)

diff --git a/gemlog/core.py b/gemlog/core.py
index 1803a99..1ba8209 100644
--- a/gemlog/core.py
+++ b/gemlog/core.py
@@ -277,11 +277,11 @@ def convert(rawpath = '.', convertedpath = 'converted', metadatapath = 'metadata
         ## check to see if we're done
         if(n1 > np.max(nums)):
             break # out of raw data to convert
-        if((t1 > t2) & (not np.isnan(t1 > t2))):
-            break # already converted the requested data
+        if(t1 > t2):
+            break # no data are requested
         ## load new data if necessary
         tt2 = min(t2, _trunc_UTCDateTime(t1, 86400*blockdays) + 86400*blockdays)
-        while((p[-1].stats.endtime < tt2) & (n1 <= max(nums))):
+        while((len(p) == 0 or p[-1].stats.endtime < tt2) and (n1 <= max(nums))):
             try:
                 L = read_gem(path = rawpath, nums = nums[(nums >= n1) & (nums < (n1 + (12*blockdays)))], SN = SN, network = network, station = station, location = location)
             except MissingRawFiles: # this can happen if a block of empty files is encountered
@@ -316,24 +316,25 @@ def convert(rawpath = '.', convertedpath = 'converted', metadatapath = 'metadata
                 gps.to_csv(gpsfile, index=False, mode='a', header=False)
             problems += L['problems']
         ## run the conversion and write new converted files
-        while((hour_to_write + file_length_sec) <= p[-1].stats.endtime):
+        p = _slice_stream(p, hour_to_write, t2)
+        while((len(p) > 0) and ((hour_to_write + file_length_sec) <= p[-1].stats.endtime)):
             #hour_to_write = _write_hourlong_mseed(p, hour_to_write, file_length_sec, bitweight, convertedpath, output_format=output_format)
             hour_to_write = _write_hourlong_mseed(p, hour_to_write, file_length_sec, bitweight, convertedpath, output_format=output_format)
-            p.trim(hour_to_write, t2)
-            p = p.split()
+            p = _slice_stream(p, hour_to_write, t2)
             if(len(p) > 0):
                 hour_to_write = p[0].stats.starttime
             else:
                 break
             
         ## update start time to convert
-        p.trim(hour_to_write, t2)
-        t1 = _trunc_UTCDateTime(tt2+(86400*blockdays) + 1, 86400*blockdays)
+        if(tt2 >= t2):
+            break # already read the requested data
+        t1 = tt2
     ## done reading new files. write what's left and end.
-    while((hour_to_write <= p[-1].stats.endtime) & (len(p) > 0)):
+    p = _slice_stream(p, hour_to_write, t2)
+    while((len(p) > 0) and (hour_to_write <= p[-1].stats.endtime)):
         hour_to_write = _write_hourlong_mseed(p, hour_to_write, file_length_sec, bitweight, convertedpath, output_format=output_format)
-        p.trim(hour_to_write, t2)
-        p = p.split()
+        p = _slice_stream(p, hour_to_write, t2)
         if(len(p) > 0):
             hour_to_write = p[0].stats.starttime
         else:
@@ -341,6 +342,12 @@ def convert(rawpath = '.', convertedpath = 'converted', metadatapath = 'metadata
     return problems
 ####################################
 
+def _slice_stream(p, t1, t2):
+    ## the samples of p from t1 to t2 (inclusive), and none outside, as contiguous traces
+    if(t1 > t2):
+        return obspy.Stream()
+    return p.slice(t1, t2, nearest_sample = False).split()
+
 def _write_hourlong_mseed(p, hour_to_write, file_length_sec, bitweight, convertedpath, hour_end = np.nan, output_format='mseed'):
     eps = 1e-6
     if(np.isnan(hour_end)):
-- 
2.43.0


From 804db70da6b864f21df3aa677b6546358dff2083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:35 +0000
Subject: [PATCH 34/42] fix: times at a multiple of the file length are not
 truncated to the multiple before

---
 gemlog/core.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/gemlog/core.py b/gemlog/core.py
index 1ba8209..6259e87 100644
--- a/gemlog/core.py
+++ b/gemlog/core.py
@@ -404,7 +404,10 @@ def write_wav(tr, filename = None, path = '.', time_format = '%Y-%m-%dT%H_%M_%S'
     
 
 def _trunc_UTCDateTime(x, n=86400):
-    return obspy.core.UTCDateTime(int(float(x)/n)*n)#, origin='1970-01-01')
+    ## use whole microseconds (the precision of UTCDateTime): a float quotient can fall just short of a multiple of n
+    n = int(round(n * 1e6))
+    x = int(round(obspy.core.UTCDateTime(x).ns / 1000))
+    return obspy.core.UTCDateTime(ns = (x // n) * n * 1000)
 
 def _make_filename(dir, SN, dirtype):
     n = 0
-- 
2.43.0


From cfb32113b17f25de88a7620040256047fed43dd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:35 +0000
Subject: [PATCH 35/42] fix: traces starting in the same second are written to
 different files

---
 gemlog/core.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/gemlog/core.py b/gemlog/core.py
index 6259e87..369928e 100644
--- a/gemlog/core.py
+++ b/gemlog/core.py
@@ -271,6 +271,7 @@ def convert(rawpath = '.', convertedpath = 'converted', metadatapath = 'metadata
         gps[wgps].to_csv(gpsfile, index=False)
 
     hour_to_write = max(t1, p[0].stats.starttime)
+    written = set() # names of the files written by this conversion
     
     ## read sets of (12*blockdays) files until all the files are converted
     while(True):
@@ -318,8 +319,7 @@ def convert(rawpath = '.', convertedpath = 'converted', metadatapath = 'metadata
         ## run the conversion and write new converted files
         p = _slice_stream(p, hour_to_write, t2)
         while((len(p) > 0) and ((hour_to_write + file_length_sec) <= p[-1].stats.endtime)):
-            #hour_to_write = _write_hourlong_mseed(p, hour_to_write, file_length_sec, bitweight, convertedpath, output_format=output_format)
-            hour_to_write = _write_hourlong_mseed(p, hour_to_write, file_length_sec, bitweight, convertedpath, output_format=output_format)
+            hour_to_write = _write_hourlong_mseed(p, hour_to_write, file_length_sec, bitweight, convertedpath, output_format=output_format, written=written)
             p = _slice_stream(p, hour_to_write, t2)
             if(len(p) > 0):
                 hour_to_write = p[0].stats.starttime
@@ -333,7 +333,7 @@ def convert(rawpath = '.', convertedpath = 'converted', metadatapath = 'metadata
     ## done reading new files. write what's left and end.
     p = _slice_stream(p, hour_to_write, t2)
     while((len(p) > 0) and (hour_to_write <= p[-1].stats.endtime)):
-        hour_to_write = _write_hourlong_mseed(p, hour_to_write, file_length_sec, bitweight, convertedpath, output_format=output_format)
+        hour_to_write = _write_hourlong_mseed(p, hour_to_write, file_length_sec, bitweight, convertedpath, output_format=output_format, written=written)
         p = _slice_stream(p, hour_to_write, t2)
         if(len(p) > 0):
             hour_to_write = p[0].stats.starttime
@@ -348,8 +348,11 @@ def _slice_stream(p, t1, t2):
         return obspy.Stream()
     return p.slice(t1, t2, nearest_sample = False).split()
 
-def _write_hourlong_mseed(p, hour_to_write, file_length_sec, bitweight, convertedpath, hour_end = np.nan, output_format='mseed'):
+def _write_hourlong_mseed(p, hour_to_write, file_length_sec, bitweight, convertedpath, hour_end = np.nan, output_format='mseed', written = None):
+    ## written: set of the names of the files written so far, which must not be overwritten
     eps = 1e-6
+    if(written is None):
+        written = set()
     if(np.isnan(hour_end)):
         hour_end = _trunc_UTCDateTime(hour_to_write, file_length_sec) + file_length_sec
     pp = p.slice(hour_to_write, hour_end - eps, nearest_sample = False) # nearest sample and eps avoid overlapping samples between files
@@ -359,6 +362,9 @@ def _write_hourlong_mseed(p, hour_to_write, file_length_sec, bitweight, converte
     for tr in pp:
         tr.stats.calib = bitweight
         fn = _make_filename_converted(tr, output_format)
+        if(fn in written): # another trace starts in the same second
+            fn = _make_filename_converted(tr, output_format, fraction = True)
+        written.add(fn)
         if(len(tr) > 0):
             print(tr)
             if(output_format.lower() == 'wav'):
@@ -418,10 +424,10 @@ def _make_filename(dir, SN, dirtype):
     return fn
 
 
-def _make_filename_converted(pp, output_format):
+def _make_filename_converted(pp, output_format, fraction = False):
     t0 = pp.stats.starttime
     ## colons separating H:M:S would be more readable, but are not allowed in Windows filenames
-    return f'{t0.year:04}' + '-' +f'{t0.month:02}' + '-' +f'{t0.day:02}' + 'T' + f'{t0.hour:02}' + '_' + f'{t0.minute:02}' + '_' + f'{t0.second:02}' + '.' + pp.id + '.' + output_format.lower()
+    return f'{t0.year:04}' + '-' +f'{t0.month:02}' + '-' +f'{t0.day:02}' + 'T' + f'{t0.hour:02}' + '_' + f'{t0.minute:02}' + '_' + f'{t0.second:02}' + (f'_{t0.microsecond:06}' if fraction else '') + '.' + pp.id + '.' + output_format.lower()
 
 
 ##############################################################
-- 
2.43.0


From 86011ce7737056035828fca7547094ba14eaefc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:35 +0000
Subject: [PATCH 36/42] fix: resampling breaks at gaps next to the first or
 last sample, and chunks overlapping in time or with repeated times are kept

---
 gemlog/core.py | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/gemlog/core.py b/gemlog/core.py
index 369928e..2a5a5eb 100644
--- a/gemlog/core.py
+++ b/gemlog/core.py
@@ -1312,20 +1312,21 @@ def _interp_time(data, t1 = -np.inf, t2 = np.inf, min_step = 0, max_step = 0.025
     p_in = data[w_nonnan,1]
     _breakpoint()
     #t1 = np.trunc(t_in[t_in >= t1][0]+1-0.01) ## added on 2019-09-11. 2021-07-11: this line is responsible for losing samples before the start of a second
-    t1 = t_in[t_in >= (t1 - 0.01 - eps)][0]
-    t2 = t_in[t_in <= (t2 + .01 + eps)][-1] # add a sample because t2 is 1 sample before the hour
-    breaks_raw = np.where((np.diff(t_in) > max_step) | (np.diff(t_in) < min_step) )[0] # 2020-11-04: check for backwards steps too
-    breaks = breaks_raw[(t_in[breaks_raw] > t1) & (t_in[breaks_raw+1] < t2)]
-    starts = np.hstack([t1, t_in[breaks+1]]) # start times of continuous chunks
-    ends = np.hstack([t_in[breaks], t2]) # end times of continuous chunks
-    w_same = (starts != ends)
-    starts = starts[w_same]
-    ends = ends[w_same]
+    w_range = (t_in >= (t1 - 0.01 - eps)) & (t_in <= (t2 + .01 + eps)) # add a sample because t2 is 1 sample before the hour
+    t_in = t_in[w_range]
+    p_in = p_in[w_range]
+    if(len(t_in) == 0): # no sample has a defined time
+        return obspy.Stream()
+    breaks = np.where((np.diff(t_in) > max_step) | (np.diff(t_in) <= min_step) )[0] # 2020-11-04: check for backwards steps too
+    i_starts = np.hstack([0, breaks+1]) # first samples of continuous chunks
+    i_ends = np.hstack([breaks, len(t_in)-1]) # last samples of continuous chunks
+    starts = t_in[i_starts] # start times of continuous chunks
+    ends = t_in[i_ends] # end times of continuous chunks
     ## make an output time vector excluding data gaps, rounded to the nearest samples
     #t_interp = np.zeros(0)
     output = obspy.Stream()
     for i in range(len(starts)):
-        w = (t_in >= (starts[i] - 0.01 - eps)) & (t_in <= (ends[i] + 0.01 - eps))
+        w = np.arange(i_starts[i], i_ends[i] + 1) # only samples of this chunk (after a backwards step, other chunks can overlap it in time)
         try:
             f = scipy.interpolate.CubicSpline(t_in[w], p_in[w])
         except:
-- 
2.43.0


From cef750724f3bbae2c7e3dc53ac9ebb755604fb63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:35 +0000
Subject: [PATCH 37/42] fix: chunks of data shorter than 0.01 s do not stop the
 conversion

---
 gemlog/core.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gemlog/core.py b/gemlog/core.py
index 2a5a5eb..b93faf8 100644
--- a/gemlog/core.py
+++ b/gemlog/core.py
@@ -1326,6 +1326,8 @@ def _interp_time(data, t1 = -np.inf, t2 = np.inf, min_step = 0, max_step = 0.025
     #t_interp = np.zeros(0)
     output = obspy.Stream()
     for i in range(len(starts)):
+        if(np.trunc((ends-starts)[i]/0.01) == 0):
+            continue # chunk too short to contain any output sample
         w = np.arange(i_starts[i], i_ends[i] + 1) # only samples of this chunk (after a backwards step, other chunks can overlap it in time)
         try:
             f = scipy.interpolate.CubicSpline(t_in[w], p_in[w])
-- 
2.43.0


From 2223107fa25d5059d9a4c8914d103bae0cf05cde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:35 +0000
Subject: [PATCH 38/42] fix: output samples are evaluated exactly 0.01 s apart
 even if a chunk starts half way between output sample times

---
 gemlog/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gemlog/core.py b/gemlog/core.py
index b93faf8..274a973 100644
--- a/gemlog/core.py
+++ b/gemlog/core.py
@@ -1338,7 +1338,7 @@ def _interp_time(data, t1 = -np.inf, t2 = np.inf, min_step = 0, max_step = 0.025
             ##    raise(Exception('_interp_time failed between ' +str(obspy.UTCDateTime(starts[i])) +\
             ##                    ' and ' + str(obspy.UTCDateTime(ends[i]))))
         #t_interp = np.arange(starts[i], ends[i] + eps, 0.01) # this is a bug in np.arange--intervals can be inconsistent when delta is float. This can result in significant timing errors, especially for long traces.
-        t_interp = np.round(starts[i] + np.arange(np.trunc((ends-starts)[i]/0.01)) * 0.01, 2)
+        t_interp = np.round(np.round(starts[i], 2) + np.arange(np.trunc((ends-starts)[i]/0.01)) * 0.01, 2)
         p_interp = np.array(f(t_interp).round(), dtype = 'int32')
         tr = obspy.Trace(p_interp)
         tr.stats.starttime = t_interp[0]
-- 
2.43.0


From 1426533eb663e976b8e13b53574ea5dd280dd1db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:35 +0000
Subject: [PATCH 39/42] fix: joining traces that overlap or are not in order of
 time does not change or lose samples or fill long gaps

---
 gemlog/core.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gemlog/core.py b/gemlog/core.py
index 274a973..93ca19b 100644
--- a/gemlog/core.py
+++ b/gemlog/core.py
@@ -575,6 +575,8 @@ def read_gem(path = 'raw', nums = np.arange(10000), SN = '', units = 'Pa', bitwe
 
 #################################################################
 def _merge_gaps(st, max_gap=0.031):
+    st = st.split()
+    st.merge(method = 1) # sorts; traces that overlap are joined, keeping the recorded samples
     st = st.split()
     output_st = st[:1] 
     for i in range(1, len(st)):
-- 
2.43.0


From 83e7f982e4672e81b92949cb3edc40ea9e1bc870 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:49 +0000
Subject: [PATCH 40/42] fix: GPS span of a raw file is that between its
 earliest and latest fix

_calculate_drift compared the data span with last minus first GPS time; when
that is negative (an outlying first fix, or GPS time running backward) any
data span passed as sufficiently covered by GPS.
---
 gemlog/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gemlog/core.py b/gemlog/core.py
index 93ca19b..0d15be2 100644
--- a/gemlog/core.py
+++ b/gemlog/core.py
@@ -1140,7 +1140,7 @@ def _calculate_drift(L, fn, require_gps):
         sufficient_gps = False
     else:
         any_gps = True
-        sufficient_gps = (0.001024*(L['data'][-1,0] - L['data'][0,0]) / (L['gps'].t.iloc[-1] - L['gps'].t.iloc[0] + 1e-9)) < 2 # 1e-9 to prevent div by 0
+        sufficient_gps = (0.001024*(L['data'][-1,0] - L['data'][0,0]) / (L['gps'].t.max() - L['gps'].t.min() + 1e-9)) < 2 # 1e-9 to prevent div by 0
 
     if require_gps and not any_gps:
         raise CorruptRawFileNoGPS('No GPS data in ' + fn + ', skipping this file')
-- 
2.43.0


From 72176bd6f8480821b2e205b2b8c71fc9a5aecb96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:49 +0000
Subject: [PATCH 41/42] fix: compare data span with the span of the GPS fixes
 kept in the same unit

The check after outlier removal divided seconds of data by milliseconds of
GPS, so it never refused a file whose remaining fixes cover only a fraction
of the data.
---
 gemlog/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gemlog/core.py b/gemlog/core.py
index 0d15be2..a4cab5f 100644
--- a/gemlog/core.py
+++ b/gemlog/core.py
@@ -1156,7 +1156,7 @@ def _calculate_drift(L, fn, require_gps):
             ## run the GPS time vs millis regression
             reg, num_gps_nonoutliers, MAD_nonoutliers, resid, xx, yy = _robust_regress(L['gps'].msPPS, L['gps'].t)
             ## ensure that the regression was successful
-            if ((0.001024*(L['data'][-1,0] - L['data'][0,0]) / (xx.iloc[-1] - xx.iloc[0])) > 2) \
+            if ((L['data'][-1,0] - L['data'][0,0]) > 2 * (xx.max() - xx.min())) \
                or (num_gps_nonoutliers < 10) \
                or MAD_nonoutliers > 0.01:
                 raise CorruptRawFileInadequateGPS('No useful GPS data in ' + fn + ', skipping this file')
-- 
2.43.0


From 0e9805c2d4c7261a78a8627fb8f2b37deed723c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:04 +0000
Subject: [PATCH 42/42] fix: data gaps or GPS breaks at the very start do not
 refuse the whole read

_find_breaks sliced from index -1, which is empty, when the second and third
steps of the data (or the first two fixes around a data gap) are breaks; the
exception refused all the files read together.
---
 gemlog/core.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/gemlog/core.py b/gemlog/core.py
index a4cab5f..1575cda 100644
--- a/gemlog/core.py
+++ b/gemlog/core.py
@@ -1483,8 +1483,8 @@ def _find_breaks(L):
         dataBreaks = dataBreaks[dataBreaks != len(dmD)]
     #_breakpoint()
     for i in dataBreaks:
-        starts = np.append(starts, np.max(mD[(i-1):(i+2)]))
-        ends = np.append(ends, np.min(mD[(i-1):(i+2)]))
+        starts = np.append(starts, np.max(mD[max(i-1, 0):(i+2)]))
+        ends = np.append(ends, np.min(mD[max(i-1, 0):(i+2)]))
     tG = np.array(L['gps'].t).astype('float') # gps times
     mG = np.array(L['gps'].msPPS).astype('float') # gps millis
     dmG_dtG = np.diff(mG)/np.diff(tG) * 1.024 # correction for custom millis in gem firmware (1024 us/ms)
@@ -1501,8 +1501,8 @@ def _find_breaks(L):
         overlaps = (mG[i] <= starts) & (mG[i+1] >= ends)
         if(np.any(overlaps)):
             w = np.argwhere(overlaps)
-            starts[w] = max(np.append(starts[w], mG[(i-1):(i+2)].max()))
-            ends[w] = max(np.append(ends[w], mG[(i-1):(i+2)].min()))
+            starts[w] = max(np.append(starts[w], mG[max(i-1, 0):(i+2)].max()))
+            ends[w] = max(np.append(ends[w], mG[max(i-1, 0):(i+2)].min()))
         else:
             wmin = np.argwhere(tG > tG[i])
             ## If a file's very last gps fix triggered a break, an exception would be raised here.
-- 
2.43.0

