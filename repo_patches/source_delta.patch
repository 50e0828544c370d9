From 55382ee368a087c7b79d7046bda1e6d27cdb04bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:37 +0000
Subject: [PATCH 01/26] fix: skip event-station pair if data source returns no
 stream

The get_waveforms function returned by batch.init_data returns None if the
data request fails. iter_event_data ended with an AttributeError then.
---
 rf/util.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rf/util.py b/rf/util.py
index 77a4d41..9e491f3 100644
--- a/rf/util.py
+++ b/rf/util.py
@@ -85,6 +85,8 @@ def iter_event_data(events, inventory, get_waveforms, phase='P',
             stream = get_waveforms(**kws)
         except Exception:  # no data available
             continue
+        if stream is None:  # no data available
+            continue
         stream.trim(starttime, endtime)
         stream.merge()
         if len(stream) != 3:
-- 
2.43.0


From 4d4d17e9aa6dc1efcdf1664fb550ee5696294724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:37 +0000
Subject: [PATCH 02/26] fix: skip event-station pair if its data cannot be
 merged

Data with e.g. different sampling rates or dtypes for the same channel ended
the whole iteration in iter_event_data.
---
 rf/util.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/rf/util.py b/rf/util.py
index 9e491f3..4552a04 100644
--- a/rf/util.py
+++ b/rf/util.py
@@ -87,8 +87,14 @@ def iter_event_data(events, inventory, get_waveforms, phase='P',
             continue
         if stream is None:  # no data available
             continue
-        stream.trim(starttime, endtime)
-        stream.merge()
+        try:
+            stream.trim(starttime, endtime)
+            stream.merge()
+        except Exception as ex:  # e.g. different sampling rates
+            from warnings import warn
+            warn('Error "%s" while merging data for event %s, station %s.'
+                 % (ex, event.resource_id, seedid))
+            continue
         if len(stream) != 3:
             from warnings import warn
             warn('Need 3 component seismograms. %d components '
-- 
2.43.0


From 84879bcdded3b203c2ee36c9bd0c628dc73c8143 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:07 +0000
Subject: [PATCH 03/26] fix: skip events without origin

A single event without any origin ended iter_event_data and
iter_event_metadata with an IndexError.
---
 rf/util.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/rf/util.py b/rf/util.py
index 4552a04..54365a5 100644
--- a/rf/util.py
+++ b/rf/util.py
@@ -60,7 +60,13 @@ def iter_event_data(events, inventory, get_waveforms, phase='P',
     for event, seedid in itertools.product(events, stations):
         if pbar is not None:
             pbar.update(1)
-        origin_time = (event.preferred_origin() or event.origins[0])['time']
+        try:
+            origin_time = (event.preferred_origin() or
+                           event.origins[0])['time']
+        except IndexError:  # event without origin
+            from warnings import warn
+            warn('No origin for event %s.' % event.resource_id)
+            continue
         try:
             args = (seedid[:-1] + stations[seedid], origin_time)
             coords = inventory.get_coordinates(*args)
@@ -132,7 +138,10 @@ def iter_event_metadata(events, inventory, pbar=None):
         meta = {'network': net, 'station': sta, 'location': loc,
                 'channel': cha}
         if event is not None:
-            ot = (event.preferred_origin() or event.origins[0])['time']
+            try:
+                ot = (event.preferred_origin() or event.origins[0])['time']
+            except IndexError:  # event without origin, no data available
+                continue
             meta['event_time'] = ot
         yield meta
 
-- 
2.43.0


From 442ed039cf52a16e56a511a3e22ccaec1c15ce5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:23 +0000
Subject: [PATCH 04/26] fix: restore station codes if writing of Q file fails

---
 rf/rfstream.py | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/rf/rfstream.py b/rf/rfstream.py
index 9e113d0..8de1ae4 100644
--- a/rf/rfstream.py
+++ b/rf/rfstream.py
@@ -194,10 +194,19 @@ class RFStream(Stream):
         """
         if len(self) == 0:
             return
-        for tr in self:
-            tr._write_format_specific_header(format, sh_compat=sh_compat)
-            if format.upper() == 'Q':
-                tr.stats.station = tr.id
+        stations = [tr.stats.station for tr in self]
+        try:
+            for tr in self:
+                tr._write_format_specific_header(format, sh_compat=sh_compat)
+                if format.upper() == 'Q':
+                    tr.stats.station = tr.id
+            self._write(filename, format, **kwargs)
+        finally:
+            for tr, station in zip(self, stations):
+                tr.stats.station = station
+
+    def _write(self, filename, format, **kwargs):
+        """Save stream to file, headers are already prepared."""
         if format.upper() == 'H5':
             index = self.type
             if index is None and 'event_time' in self[0].stats:
@@ -209,9 +218,6 @@ class RFStream(Stream):
         super(RFStream, self).write(filename, format, **kwargs)
         if format.upper() == 'H5' and index:
             obspyh5.set_index(old_index)
-        if format.upper() == 'Q':
-            for tr in self:
-                tr.stats.station = tr.stats.station.split('.')[1]
 
     def trim2(self, starttime=None, endtime=None, reftime=None, **kwargs):
         """
-- 
2.43.0


From 7bb493692df085851b53b1cc3aba48b9171dc0d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:23 +0000
Subject: [PATCH 05/26] fix: restore index of obspyh5 if writing of H5 file
 fails

---
 rf/rfstream.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/rf/rfstream.py b/rf/rfstream.py
index 8de1ae4..20b7fc1 100644
--- a/rf/rfstream.py
+++ b/rf/rfstream.py
@@ -215,9 +215,11 @@ class RFStream(Stream):
                 import obspyh5
                 old_index = obspyh5._INDEX
                 obspyh5.set_index(_H5INDEX[index])
-        super(RFStream, self).write(filename, format, **kwargs)
-        if format.upper() == 'H5' and index:
-            obspyh5.set_index(old_index)
+        try:
+            super(RFStream, self).write(filename, format, **kwargs)
+        finally:
+            if format.upper() == 'H5' and index:
+                obspyh5.set_index(old_index)
 
     def trim2(self, starttime=None, endtime=None, reftime=None, **kwargs):
         """
-- 
2.43.0


From 3f14e9aab6f03576743cf666152621b04ac12205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:47 +0000
Subject: [PATCH 06/26] fix: do not write headers of other formats to H5 files

---
 rf/rfstream.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rf/rfstream.py b/rf/rfstream.py
index 20b7fc1..d6b95e3 100644
--- a/rf/rfstream.py
+++ b/rf/rfstream.py
@@ -208,6 +208,8 @@ class RFStream(Stream):
     def _write(self, filename, format, **kwargs):
         """Save stream to file, headers are already prepared."""
         if format.upper() == 'H5':
+            # format specific headers are not serializable in general
+            kwargs['ignore'] = tuple(kwargs.get('ignore', ())) + ('sac', 'sh')
             index = self.type
             if index is None and 'event_time' in self[0].stats:
                 index = 'rf'
-- 
2.43.0


From c1406b1a201a10aaa19259199a526b96576011ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:08 +0000
Subject: [PATCH 07/26] fix: calculate delay times anew for other reference
 slowness

---
 rf/simple_model.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/rf/simple_model.py b/rf/simple_model.py
index 4b8cc66..e0e9ffe 100644
--- a/rf/simple_model.py
+++ b/rf/simple_model.py
@@ -134,9 +134,10 @@ class SimpleModel(object):
             raise ValueError(msg % phase)
         phase = phase.upper()
         try:
-            t_ref = self.t_ref[phase]
+            t_ref = self.t_ref[phase, ref]
         except KeyError:
-            self.t_ref[phase] = t_ref = self.calculate_delay_times(ref, phase)
+            t_ref = self.calculate_delay_times(ref, phase)
+            self.t_ref[phase, ref] = t_ref
         t = self.calculate_delay_times(slowness, phase)
         if phase[0] == 'S':
             t_ref = -t_ref
-- 
2.43.0


From 3f87ea0e560f1521bc4e18ec088e94d842229e7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:46 +0000
Subject: [PATCH 08/26] fix: stack does not share processing information with
 its input

---
 rf/rfstream.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rf/rfstream.py b/rf/rfstream.py
index d6b95e3..8197258 100644
--- a/rf/rfstream.py
+++ b/rf/rfstream.py
@@ -3,6 +3,7 @@
 """
 Classes and functions for receiver function calculation.
 """
+from copy import copy
 import json
 from operator import itemgetter
 from pkg_resources import resource_filename
@@ -431,7 +432,7 @@ class RFStream(Stream):
                           'station_longitude', 'station_elevation',
                           'processing'):
                 if entry in tr.stats:
-                    header[entry] = tr.stats[entry]
+                    header[entry] = copy(tr.stats[entry])
             tr2 = RFTrace(data=data, header=header)
             if 'onset' in tr.stats:
                 onset = tr.stats.onset - tr.stats.starttime
-- 
2.43.0


From c6261f5ad0629338f7375ae0f0cda4f8647e7cce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:46 +0000
Subject: [PATCH 09/26] fix: profile does not share processing information with
 its input

---
 rf/profile.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rf/profile.py b/rf/profile.py
index 07893a3..3488c5d 100644
--- a/rf/profile.py
+++ b/rf/profile.py
@@ -3,6 +3,8 @@
 """
 Functions for receiver function profile calculation.
 """
+from copy import copy
+
 import numpy as np
 from rf.util import _add_processing_info, direct_geodetic
 
@@ -105,7 +107,7 @@ def profile(stream, boxes, crs=None):
                       'channel': '??' + comp}
             for entry in ('slowness', 'phase', 'moveout', 'processing'):
                 if entry in tr.stats:
-                    header[entry] = tr.stats[entry]
+                    header[entry] = copy(tr.stats[entry])
             stack[key] = tr2 = tr.__class__(data=tr.data, header=header)
             if 'onset' in tr.stats:
                 onset = tr.stats.onset - tr.stats.starttime
-- 
2.43.0


From 9fb9048fdccb919e67e37d1b4bb9419b3147ef4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:46 +0000
Subject: [PATCH 10/26] fix: return copy of data which is hold in memory

---
 rf/batch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rf/batch.py b/rf/batch.py
index 05a8129..f5dfe22 100644
--- a/rf/batch.py
+++ b/rf/batch.py
@@ -160,7 +160,7 @@ def init_data(data, client_options=None, plugin=None):
             st = stream.select(network=network, station=station,
                                location=location, channel=channel)
             st = st.slice(starttime, endtime)
-            return st
+            return st.copy()  # slices are views on the original data
 
     def wrapper(**kwargs):
         try:
-- 
2.43.0


From 501e010e98b470d6b429e80def3fbf717cd8f1b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:47 +0000
Subject: [PATCH 11/26] fix: stack takes metadata of each id from traces with
 that id

---
 rf/rfstream.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/rf/rfstream.py b/rf/rfstream.py
index 8197258..afd1762 100644
--- a/rf/rfstream.py
+++ b/rf/rfstream.py
@@ -421,11 +421,12 @@ class RFStream(Stream):
         id.
         """
         ids = set(tr.id for tr in self)
-        tr = self[0]
         traces = []
         for id in ids:
             net, sta, loc, cha = id.split('.')
-            data = np.mean([tr.data for tr in self if tr.id == id], axis=0)
+            members = [tr for tr in self if tr.id == id]
+            tr = members[0]
+            data = np.mean([tr2.data for tr2 in members], axis=0)
             header = {'network': net, 'station': sta, 'location': loc,
                       'channel': cha, 'sampling_rate': tr.stats.sampling_rate}
             for entry in ('phase', 'moveout', 'station_latitude',
-- 
2.43.0


From 80a47cedc7665770c96702e4b28eb93a2d3b6d68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:28 +0000
Subject: [PATCH 12/26] fix: edges of profile boxes follow the geodesic and are
 shared by neighbours

---
 rf/profile.py | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/rf/profile.py b/rf/profile.py
index 3488c5d..b3f20d2 100644
--- a/rf/profile.py
+++ b/rf/profile.py
@@ -16,14 +16,13 @@ def _get_box(latlon0, azimuth, length, width=_LARGE_BOX_WIDTH, offset=0):
     """Create a single box."""
     from shapely.geometry import Polygon
     start = direct_geodetic(latlon0, azimuth, offset)
-    azis = ((azimuth - 90) % 360, azimuth,
-            (azimuth + 90) % 360, (azimuth + 180) % 360)
-    dists = (width/2, length, width, length)
-    latlon = start
-    corners = []
-    for a, d in zip(azis, dists):
-        latlon = direct_geodetic(latlon, a, d)
-        corners.append(latlon[::-1])
+    end = direct_geodetic(latlon0, azimuth, offset + length)
+    # neighbouring boxes share an edge, edges across the profile are sampled,
+    # because these are not straight lines in lonlat coordinates
+    dists = np.linspace(-width/2, width/2, 21)
+    corners = [direct_geodetic(start, azimuth + 90, d)[::-1] for d in dists]
+    corners += [direct_geodetic(end, azimuth + 90, d)[::-1]
+                for d in dists[::-1]]
     box = {'poly': Polygon(corners),
            'length': length,
            'pos': offset + length/2,
-- 
2.43.0


From ad35c9aff48245fdd3f420a9b6b3be65b68593f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:28 +0000
Subject: [PATCH 13/26] fix: profile boxes may cross the date line

---
 rf/profile.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rf/profile.py b/rf/profile.py
index b3f20d2..49540cd 100644
--- a/rf/profile.py
+++ b/rf/profile.py
@@ -23,6 +23,9 @@ def _get_box(latlon0, azimuth, length, width=_LARGE_BOX_WIDTH, offset=0):
     corners = [direct_geodetic(start, azimuth + 90, d)[::-1] for d in dists]
     corners += [direct_geodetic(end, azimuth + 90, d)[::-1]
                 for d in dists[::-1]]
+    # longitudes have to be continuous across the date line
+    lon0 = start[1] - 180
+    corners = [((lon - lon0) % 360 + lon0, lat) for lon, lat in corners]
     box = {'poly': Polygon(corners),
            'length': length,
            'pos': offset + length/2,
-- 
2.43.0


From bca7b5f537e02d4b65cb610799f783eb933206ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:18 +0000
Subject: [PATCH 14/26] fix: keep phases of traces in stream with several
 phases

---
 rf/rfstream.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/rf/rfstream.py b/rf/rfstream.py
index afd1762..aa72324 100644
--- a/rf/rfstream.py
+++ b/rf/rfstream.py
@@ -361,8 +361,10 @@ class RFStream(Stream):
                 tr.stats.onset = tr.stats.starttime + (tr.stats.endtime -
                                                        tr.stats.onset)
         self.type = 'rf'
-        if self.method != method:
-            self.method = method
+        for tr in self:
+            # keep phases like PP in stream with several phases
+            if tr.stats.get('phase', ' ')[-1].upper() != method:
+                tr.stats.phase = method
         return self
 
     @_add_processing_info
-- 
2.43.0


From 4e6183f23f006e349a94468a9e114a056d9849df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:52 +0000
Subject: [PATCH 15/26] fix: stack command replaces stacks of H5 file if run
 again

---
 rf/batch.py    | 4 +++-
 rf/rfstream.py | 5 +++--
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/rf/batch.py b/rf/batch.py
index f5dfe22..5642f54 100644
--- a/rf/batch.py
+++ b/rf/batch.py
@@ -85,7 +85,9 @@ def write(stream, root, format, type=None):
     fname = fname_pattern.format(root=root, **stream[0].stats)
     _create_dir(fname)
     if format == 'H5':
-        stream.write(fname, format, mode='a', ignore=('mseed',))
+        # stacks have to replace stacks written by a previous call
+        index = 'stack' if type == 'stack' else None
+        stream.write(fname, format, mode='a', ignore=('mseed',), index=index)
     elif format == 'Q':
         stream.write(fname, format)
     elif format == 'SAC':
diff --git a/rf/rfstream.py b/rf/rfstream.py
index aa72324..e33ede5 100644
--- a/rf/rfstream.py
+++ b/rf/rfstream.py
@@ -104,7 +104,8 @@ _TF = '.datetime:%Y-%m-%dT%H:%M:%S'
 _H5INDEX = {
     'rf': ('waveforms/{network}.{station}.{location}/{event_time%s}/' % _TF +
            '{channel}_{starttime%s}_{endtime%s}' % (_TF, _TF)),
-    'profile': 'waveforms/{channel[2]}_{box_pos}'
+    'profile': 'waveforms/{channel[2]}_{box_pos}',
+    'stack': 'waveforms/{network}.{station}.{location}/{channel}'
 }
 
 
@@ -211,7 +212,7 @@ class RFStream(Stream):
         if format.upper() == 'H5':
             # format specific headers are not serializable in general
             kwargs['ignore'] = tuple(kwargs.get('ignore', ())) + ('sac', 'sh')
-            index = self.type
+            index = kwargs.pop('index', None) or self.type
             if index is None and 'event_time' in self[0].stats:
                 index = 'rf'
             if index:
-- 
2.43.0


From 4f4117b52f099bd502441d2bcd39fa663bccf52f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:13 +0000
Subject: [PATCH 16/26] fix: names of records do not depend on precision of
 event time in file formats

---
 rf/batch.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/rf/batch.py b/rf/batch.py
index 5642f54..f6280e3 100644
--- a/rf/batch.py
+++ b/rf/batch.py
@@ -100,6 +100,7 @@ def iter_event_processed_data(events, inventory, pin, format,
                               yield_traces=False, pbar=None):
     """Iterator yielding streams or traces which are read from disc."""
     for meta in iter_event_metadata(events, inventory, pbar=pbar):
+        event_time = meta.get('event_time')
         meta['channel'] = '???'
         if 'event_time' not in meta and format != 'H5':
             meta['event_time'] = _DummyUTC()
@@ -113,6 +114,11 @@ def iter_event_processed_data(events, inventory, pin, format,
         except Exception:
             pass
         else:
+            if event_time is not None:
+                # precision of event time is limited in SAC and Q formats,
+                # but names of records are derived from the event time
+                for tr in stream:
+                    tr.stats.event_time = event_time
             if yield_traces:
                 for tr in stream:
                     yield tr
-- 
2.43.0


From bd34f3047db500f8d4f23f2a88d5f98c6f2a5f88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:02 +0000
Subject: [PATCH 17/26] fix: other bands of same station are records of their
 own

---
 rf/batch.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/rf/batch.py b/rf/batch.py
index f6280e3..7ff64cb 100644
--- a/rf/batch.py
+++ b/rf/batch.py
@@ -101,6 +101,7 @@ def iter_event_processed_data(events, inventory, pin, format,
     """Iterator yielding streams or traces which are read from disc."""
     for meta in iter_event_metadata(events, inventory, pbar=pbar):
         event_time = meta.get('event_time')
+        channel = meta['channel']
         meta['channel'] = '???'
         if 'event_time' not in meta and format != 'H5':
             meta['event_time'] = _DummyUTC()
@@ -114,6 +115,10 @@ def iter_event_processed_data(events, inventory, pin, format,
         except Exception:
             pass
         else:
+            # other bands of the same station are records of their own
+            stream = stream.select(channel=channel)
+            if len(stream) == 0:
+                continue
             if event_time is not None:
                 # precision of event time is limited in SAC and Q formats,
                 # but names of records are derived from the event time
-- 
2.43.0


From 3b58ad3732c423ffd1e4a8e600df41b663c40c58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:39 +0000
Subject: [PATCH 18/26] fix: write H5 files with one index at a time

---
 rf/rfstream.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/rf/rfstream.py b/rf/rfstream.py
index e33ede5..f1a372c 100644
--- a/rf/rfstream.py
+++ b/rf/rfstream.py
@@ -7,6 +7,7 @@ from copy import copy
 import json
 from operator import itemgetter
 from pkg_resources import resource_filename
+from threading import RLock
 import warnings
 
 import numpy as np
@@ -108,6 +109,8 @@ _H5INDEX = {
     'stack': 'waveforms/{network}.{station}.{location}/{channel}'
 }
 
+_H5LOCK = RLock()
+
 
 def read_rf(pathname_or_url=None, format=None, **kwargs):
     """
@@ -202,7 +205,12 @@ class RFStream(Stream):
                 tr._write_format_specific_header(format, sh_compat=sh_compat)
                 if format.upper() == 'Q':
                     tr.stats.station = tr.id
-            self._write(filename, format, **kwargs)
+            if format.upper() == 'H5':
+                # index is a global variable of obspyh5
+                with _H5LOCK:
+                    self._write(filename, format, **kwargs)
+            else:
+                self._write(filename, format, **kwargs)
         finally:
             for tr, station in zip(self, stations):
                 tr.stats.station = station
-- 
2.43.0


From bc3c201da134d520e2abb1c7f89f2b1feb30493c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:38 +0000
Subject: [PATCH 19/26] fix: directory of records may be created by another
 process

---
 rf/batch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rf/batch.py b/rf/batch.py
index 7ff64cb..c8e2075 100644
--- a/rf/batch.py
+++ b/rf/batch.py
@@ -71,7 +71,7 @@ def _create_dir(filename):
     """
     head = os.path.dirname(filename)
     if head != '' and not os.path.isdir(head):
-        os.makedirs(head)
+        os.makedirs(head, exist_ok=True)
 
 
 def write(stream, root, format, type=None):
-- 
2.43.0


From bffd3015631d28f0975939b1bff054a0e4aeda04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:46 +0000
Subject: [PATCH 20/26] fix: model files with equal relative path in different
 directories are different models

---
 rf/simple_model.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/rf/simple_model.py b/rf/simple_model.py
index e0e9ffe..cec55cb 100644
--- a/rf/simple_model.py
+++ b/rf/simple_model.py
@@ -3,6 +3,7 @@
 Simple move out and piercing point calculation.
 """
 from math import floor
+import os
 from pkg_resources import resource_filename
 
 import numpy as np
@@ -28,6 +29,9 @@ def load_model(fname='iasp91'):
          0.00  5.800 3.360 0
         10.00  5.800 3.360 4
     """
+    if fname != 'iasp91' and isinstance(fname, str):
+        # a relative path is another file in another working directory
+        fname = os.path.abspath(fname)
     try:
         return _MODEL_CACHE[fname]
     except KeyError:
-- 
2.43.0


From 6ab852297f6db88cbe78be0270fc0578fbf2bd7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:51 +0000
Subject: [PATCH 21/26] fix: data command does not accept the same step twice

---
 rf/batch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rf/batch.py b/rf/batch.py
index c8e2075..490a14b 100644
--- a/rf/batch.py
+++ b/rf/batch.py
@@ -268,7 +268,7 @@ def run_commands(command, commands=(), events=None, inventory=None,
         kw['boxes']['bins'] = np.linspace(*kw['boxbins'])
 
     try:
-        if command == 'calc':
+        if command == 'data':
             assert len(commands) < 3
             if len(commands) == 2:
                 assert commands[0] != commands[1]
-- 
2.43.0


From 51ca488670bea803e216a389d003a4a07a06f7af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:11 +0000
Subject: [PATCH 22/26] fix: batch commands accept events which are in memory

---
 rf/batch.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/rf/batch.py b/rf/batch.py
index 490a14b..14d4712 100644
--- a/rf/batch.py
+++ b/rf/batch.py
@@ -282,9 +282,10 @@ def run_commands(command, commands=(), events=None, inventory=None,
         if command in ('stack', 'plot'):
             events = None
         elif command != 'print' or objects[0] == 'events':
-            if (not isinstance(events, obspy.Catalog) or
-                    not isinstance(events, list) or
-                    (len(events) == 2 and isinstance(events[0], basestring))):
+            if (not isinstance(events, obspy.Catalog) and
+                    (not isinstance(events, list) or
+                     (len(events) == 2 and
+                      isinstance(events[0], basestring)))):
                 if isinstance(events, basestring):
                     format_ = None
                 else:
-- 
2.43.0


From 844da0830a74f2a0ef7f58c2fe2a342661bba59a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:11 +0000
Subject: [PATCH 23/26] fix: batch commands do not change options of their
 caller

---
 rf/batch.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/rf/batch.py b/rf/batch.py
index 14d4712..cb3198c 100644
--- a/rf/batch.py
+++ b/rf/batch.py
@@ -5,6 +5,7 @@ rf: receiver function calculation - batch command line utility
 
 import argparse
 from argparse import SUPPRESS
+from copy import copy
 from importlib import import_module
 import json
 import os
@@ -258,8 +259,8 @@ def run_commands(command, commands=(), events=None, inventory=None,
     for opt in DICT_OPTIONS:
         default = None if opt == 'boxbins' else {}
         d = kw.setdefault(opt, default)
-        if isinstance(d, basestring):
-            kw[opt] = json.loads(d)
+        # options are changed below, but not those of the caller
+        kw[opt] = json.loads(d) if isinstance(d, basestring) else copy(d)
     if phase is not None:
         kw['options']['phase'] = phase
     if moveout_phase is not None:
-- 
2.43.0


From 4bd6d90183bf7d421f6478253ae240b097dae5ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:11 +0000
Subject: [PATCH 24/26] fix: metadata of events are not replaced by headers in
 files of the data source

---
 rf/util.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/rf/util.py b/rf/util.py
index 54365a5..913edd8 100644
--- a/rf/util.py
+++ b/rf/util.py
@@ -96,6 +96,9 @@ def iter_event_data(events, inventory, get_waveforms, phase='P',
         try:
             stream.trim(starttime, endtime)
             stream.merge()
+            # headers in the files of the data source are read here,
+            # these must not replace the metadata of this event below
+            stream = RFStream(stream)
         except Exception as ex:  # e.g. different sampling rates
             from warnings import warn
             warn('Error "%s" while merging data for event %s, station %s.'
@@ -114,7 +117,7 @@ def iter_event_data(events, inventory, get_waveforms, phase='P',
             continue
         for tr in stream:
             tr.stats.update(stats)
-        yield RFStream(stream)
+        yield stream
 
 
 def iter_event_metadata(events, inventory, pbar=None):
-- 
2.43.0


From e0cc1f3dca70d2cc9218dc4c898bf432be75b876 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:24 +0000
Subject: [PATCH 25/26] fix: distance and back azimuth are not calculated anew
 when writing SAC files

---
 rf/rfstream.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rf/rfstream.py b/rf/rfstream.py
index f1a372c..1943a6b 100644
--- a/rf/rfstream.py
+++ b/rf/rfstream.py
@@ -597,6 +597,8 @@ class RFTrace(Trace):
             # make sure SAC reference time is set
             from obspy.io.sac.util import obspy_to_sac_header
             self.stats.sac = obspy_to_sac_header(self.stats)
+            # keep distance and azimuths, do not calculate them anew
+            self.stats.sac['lcalda'] = False
         try:
             header_map = zip(_HEADERS, _FORMATHEADERS[format])
         except KeyError:
-- 
2.43.0


From 88841fce436bacaf83ee07fb630b88ded6b5a4b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:43:59 +0000
Subject: [PATCH 26/26] fix: failed import of a plugin does not change the
 module search path

---
 rf/batch.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/rf/batch.py b/rf/batch.py
index cb3198c..235f1a9 100644
--- a/rf/batch.py
+++ b/rf/batch.py
@@ -140,8 +140,10 @@ def _iter_profile(pin, format):
 def load_func(modulename, funcname):
     """Load and return function from Python module."""
     sys.path.append(os.path.curdir)
-    module = import_module(modulename)
-    sys.path.pop(-1)
+    try:
+        module = import_module(modulename)
+    finally:
+        sys.path.pop(-1)
     func = getattr(module, funcname)
     return func
 
-- 
2.43.0

