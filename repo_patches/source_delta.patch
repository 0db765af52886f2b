From 59c53d95337edb81528b45bc77500916b6a6150f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:41 +0000
Subject: [PATCH 01/35] fix: load_imbalance raised TypeError on every trace

flat_profile.loc[function] is a DataFrame, whose sort_values needs `by`;
use the Series of the metric.
---
 pipit/trace.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pipit/trace.py b/pipit/trace.py
index fcc9f75..3eb2c66 100644
--- a/pipit/trace.py
+++ b/pipit/trace.py
@@ -583,7 +583,7 @@ class Trace:
 
         functions = set(self.events.loc[self.events["Event Type"] == "Enter"]["Name"])
         for function in functions:
-            curr_series = flat_profile.loc[function]
+            curr_series = flat_profile.loc[function][metric]
 
             top_n = curr_series.sort_values(ascending=False).iloc[0:num_display]
 
-- 
2.43.0


From 2ce6b708a666818bfaac60b500bf858dc08775e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:41 +0000
Subject: [PATCH 02/35] fix: idle_time(mpi_events=True) modified its (default)
 argument

Later calls counted the MPI functions even without mpi_events.
---
 pipit/trace.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pipit/trace.py b/pipit/trace.py
index 3eb2c66..924ff3d 100644
--- a/pipit/trace.py
+++ b/pipit/trace.py
@@ -618,7 +618,11 @@ class Trace:
             self.calc_inc_metrics()
 
         if mpi_events:
-            idle_functions += ["MPI_Wait", "MPI_Waitall", "MPI_Recv"]
+            idle_functions = list(idle_functions) + [
+                "MPI_Wait",
+                "MPI_Waitall",
+                "MPI_Recv",
+            ]
         # filter the dataframe to include only 'Enter' events within the specified
         # process with the specified function names
         df = self.events
-- 
2.43.0


From 17d1d860e03498f08e5738fbccda13f554395265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:41 +0000
Subject: [PATCH 03/35] fix: flat_profile rejected a list of groupby columns

The documentation allows a string or a list.
---
 pipit/trace.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pipit/trace.py b/pipit/trace.py
index 924ff3d..0956176 100644
--- a/pipit/trace.py
+++ b/pipit/trace.py
@@ -525,6 +525,9 @@ class Trace:
         """
 
         metrics = [metrics] if not isinstance(metrics, list) else metrics
+        groupby_columns = (
+            groupby_column if isinstance(groupby_column, list) else [groupby_column]
+        )
 
         # calculate inclusive time if needed
         if "time.inc" in metrics:
@@ -540,13 +543,13 @@ class Trace:
         if per_process:
             return (
                 self.events.loc[self.events["Event Type"] == "Enter"]
-                .groupby([groupby_column, "Process"], observed=True)[metrics]
+                .groupby(groupby_columns + ["Process"], observed=True)[metrics]
                 .sum()
             )
         else:
             return (
                 self.events.loc[self.events["Event Type"] == "Enter"]
-                .groupby([groupby_column, "Process"], observed=True)[metrics]
+                .groupby(groupby_columns + ["Process"], observed=True)[metrics]
                 .sum()
                 .groupby(groupby_column)
                 .mean()
-- 
2.43.0


From fef316118cc5c90be84baac2959ae7a5d5ddfa9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:41 +0000
Subject: [PATCH 04/35] fix: flat_profile listed names that are never entered

Unused category levels (such as instant event names) showed up as NaN rows.
---
 pipit/trace.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pipit/trace.py b/pipit/trace.py
index 0956176..64c8147 100644
--- a/pipit/trace.py
+++ b/pipit/trace.py
@@ -551,7 +551,7 @@ class Trace:
                 self.events.loc[self.events["Event Type"] == "Enter"]
                 .groupby(groupby_columns + ["Process"], observed=True)[metrics]
                 .sum()
-                .groupby(groupby_column)
+                .groupby(groupby_column, observed=True)
                 .mean()
             )
 
-- 
2.43.0


From 28e3fcdd5123d11d1ff71da622cb594eefd79ad8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:41 +0000
Subject: [PATCH 05/35] fix: from_csv reordered simultaneous events

---
 pipit/trace.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pipit/trace.py b/pipit/trace.py
index 64c8147..7b3ce24 100644
--- a/pipit/trace.py
+++ b/pipit/trace.py
@@ -90,8 +90,14 @@ class Trace:
         )
 
         # sort the dataframe by Timestamp
+        # (stable, so that simultaneous events keep their order)
         events_dataframe.sort_values(
-            by="Timestamp (ns)", axis=0, ascending=True, inplace=True, ignore_index=True
+            by="Timestamp (ns)",
+            axis=0,
+            ascending=True,
+            inplace=True,
+            ignore_index=True,
+            kind="stable",
         )
 
         return Trace(None, events_dataframe)
-- 
2.43.0


From 25d61d92e4ba18dc3f95a8ab8ee4652c927d8ddc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:41 +0000
Subject: [PATCH 06/35] fix: wrong parents after calls that do not end
 innermost first

A Leave removed the top of the stack even when it belongs to another
open call, so later calls got a parent that had already returned.
---
 pipit/trace.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pipit/trace.py b/pipit/trace.py
index 7b3ce24..2dc2fa3 100644
--- a/pipit/trace.py
+++ b/pipit/trace.py
@@ -214,6 +214,7 @@ class Trace:
             # match events so we can
             # ignore unmatched ones
             self._match_events()
+            matching_events = self.events["_matching_event"].to_list()
 
             # only use enter and leave rows
             # to determine calling relationships
@@ -282,7 +283,7 @@ class Trace:
                         # Note: parent, and children for a leave row
                         # can be found using the matching index that
                         # corresponds to the enter row
-                        stack.pop()
+                        stack.remove(matching_events[curr_df_index])
 
                         curr_depth -= 1
 
-- 
2.43.0


From c46bfa2f6bbfe0e45684d52372ca9f6a2608482b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:57 +0000
Subject: [PATCH 07/35] fix: create_cct merged different call paths

Call paths were joined with "->", so names containing that separator could
share a node with a different path, and after a call that does not end
innermost first a node could be shared between two parents.
---
 pipit/util/cct.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/pipit/util/cct.py b/pipit/util/cct.py
index b499227..6c7f7ab 100644
--- a/pipit/util/cct.py
+++ b/pipit/util/cct.py
@@ -45,7 +45,7 @@ def create_cct(events):
         else:
             filtered_df = enter_leave_df.loc[(enter_leave_df["Process"] == curr_loc)]
 
-        curr_depth, callpath = 0, ""
+        curr_depth = 0
 
         """
         Iterating over lists instead of
@@ -70,17 +70,24 @@ def create_cct(events):
             if evt_type == "Enter":
                 # add the function to the stack and get the call path
                 functions_stack.append(function_name)
-                callpath = "->".join(functions_stack)
 
                 # get the parent node of the function if it exists
                 parent_node = None if curr_depth == 0 else nodes_stack[-1]
 
+                # the call path is the one of the parent extended by this
+                # function (joining the names into a string is ambiguous)
+                if parent_node is None:
+                    callpath, level = (None, function_name), 0
+                else:
+                    callpath = (parent_node._pipit_nid, function_name)
+                    level = parent_node.get_level() + 1
+
                 if callpath in callpath_to_node:
                     # don't create new node if callpath is in map
                     curr_node = callpath_to_node[callpath]
                 else:
                     # create new node if callpath isn't in map
-                    curr_node = Node(node_id, parent_node, curr_depth)
+                    curr_node = Node(node_id, parent_node, level)
                     callpath_to_node[callpath] = curr_node
                     node_id += 1
 
-- 
2.43.0


From d86c689da1e09383150fdfb91dc22ea3cd2b4e87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:37 +0000
Subject: [PATCH 08/35] fix: single-process Nsight traces had no Process column

Matching, the CCT and every analysis raised KeyError on them.
---
 pipit/readers/nsight_reader.py | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/pipit/readers/nsight_reader.py b/pipit/readers/nsight_reader.py
index a956fb8..83b22ae 100644
--- a/pipit/readers/nsight_reader.py
+++ b/pipit/readers/nsight_reader.py
@@ -45,15 +45,12 @@ class NsightReader:
             # Converting Thread from float to int
             self.df["Thread"] = self.df["Thread"].astype(int)
 
-        # check if PID set is > 1, if so multiprocess or single process
-        if len(pid) > 1:
-            # Set Process column to PID
-            self.df["Process"] = self.df["PID"]
-            # Getting the PID set, creating a dictionary,
-            # and increment the values (0,1,2,...)
-            pid_dict = dict(zip(pid, range(0, len(pid))))
-            # Using the dictionary to replace the Process values
-            self.df["Process"].replace(pid_dict, inplace=True)
+        # Getting the PID set, creating a dictionary,
+        # and increment the values (0,1,2,...)
+        pid_dict = dict(zip(pid, range(0, len(pid))))
+        # Using the dictionary to set the Process values
+        # (also for a single process, since every analysis needs the column)
+        self.df["Process"] = self.df["PID"].map(pid_dict)
 
         # Copy self.df to create enter and leave rows
         df2 = self.df.copy()
-- 
2.43.0


From 480479d7672f027ec66e6c14d7903b25f008caed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:37 +0000
Subject: [PATCH 09/35] fix: Nsight ranges with coinciding boundaries were
 paired wrongly

All Enter rows preceded all Leave rows of the same time, so a range starting
when another one of the same name ends was matched with the wrong Leave, and
nested ranges with a common boundary were not nested.
---
 pipit/readers/nsight_reader.py | 25 ++++++++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/pipit/readers/nsight_reader.py b/pipit/readers/nsight_reader.py
index 83b22ae..f9f6cf9 100644
--- a/pipit/readers/nsight_reader.py
+++ b/pipit/readers/nsight_reader.py
@@ -3,6 +3,7 @@
 #
 # SPDX-License-Identifier: MIT
 
+import numpy as np
 import pandas as pd
 import pipit.trace
 
@@ -64,12 +65,30 @@ class NsightReader:
         df2["Timestamp (ns)"] = df2["End (ns)"]
 
         # Combine dataframes together
+        num_ranges = len(df2)
         self.df = pd.concat([self.df, df2])
 
-        # Tidy Dataframe
-        self.df.drop(["Start (ns)", "End (ns)"], axis=1, inplace=True)
+        # Order the events by time, and simultaneous events such that ranges stay
+        # properly nested: first leave the ranges that end (innermost first), then
+        # enter the ranges that start (outermost first). Ranges of zero length are
+        # left right after they are entered.
+        start, end = self.df["Start (ns)"].values, self.df["End (ns)"].values
+        row = np.tile(np.arange(num_ranges), 2)
+        leave = np.repeat([False, True], num_ranges)
+        closing = leave & (start < end)
+        order = np.lexsort(
+            (
+                leave,
+                np.where(closing, -row, row),
+                np.where(closing, -start, -end),
+                ~closing,
+                self.df["Timestamp (ns)"].values,
+            )
+        )
+        self.df = self.df.iloc[order]
 
-        self.df.sort_values(by="Timestamp (ns)", ascending=True, inplace=True)
+        # Tidy Dataframe
+        self.df = self.df.drop(["Start (ns)", "End (ns)"], axis=1)
 
         self.df.reset_index(drop=True, inplace=True)
 
-- 
2.43.0


From fc56c77873b4ba5c3437f4faea7fc9c40a68d294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:29 +0000
Subject: [PATCH 10/35] fix: END_USER_EVENT_PAIR records made Projections
 reading fail

---
 pipit/readers/projections_reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pipit/readers/projections_reader.py b/pipit/readers/projections_reader.py
index 0a2044c..5c8d370 100644
--- a/pipit/readers/projections_reader.py
+++ b/pipit/readers/projections_reader.py
@@ -765,7 +765,7 @@ class ProjectionsReader:
                     }
 
                     _add_to_trace_dict(
-                        "User Event Pair", "Leave", time, pe_num, details
+                        data, "User Event Pair", "Leave", time, pe_num, details
                     )
 
                 # User stat (in code)
-- 
2.43.0


From 3197f34d1a532e76ddc6124a0e28b78fe0719ea7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:29 +0000
Subject: [PATCH 11/35] fix: times and event ids of Projections notes were left
 as strings

The time was the field repeated 1000 times, which breaks sorting, and the
event id of a bracketed note was never found in the sts table.
---
 pipit/readers/projections_reader.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pipit/readers/projections_reader.py b/pipit/readers/projections_reader.py
index 5c8d370..a105a94 100644
--- a/pipit/readers/projections_reader.py
+++ b/pipit/readers/projections_reader.py
@@ -416,7 +416,7 @@ class ProjectionsReader:
                     )
 
                 elif int(line_arr[0]) == ProjectionsConstants.USER_SUPPLIED_NOTE:
-                    time = line_arr[1] * 1000
+                    time = int(line_arr[1]) * 1000
                     note = ""
                     for i in range(2, len(line_arr)):
                         note = note + line_arr[i] + " "
@@ -432,9 +432,9 @@ class ProjectionsReader:
                     int(line_arr[0])
                     == ProjectionsConstants.USER_SUPPLIED_BRACKETED_NOTE
                 ):
-                    time = line_arr[1] * 1000
-                    end_time = line_arr[2] * 1000
-                    user_event_id = line_arr[3]
+                    time = int(line_arr[1]) * 1000
+                    end_time = int(line_arr[2]) * 1000
+                    user_event_id = int(line_arr[3])
                     note = ""
                     for i in range(4, len(line_arr)):
                         note = note + line_arr[i] + " "
-- 
2.43.0


From ed743cd606206741595c0d448f6780c5b2b1cead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:29 +0000
Subject: [PATCH 12/35] fix: Projections multicast records lost their
 attributes

The destination list read only the first entry and one past the last (an
IndexError), and the collected details were replaced with a string.
---
 pipit/readers/projections_reader.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pipit/readers/projections_reader.py b/pipit/readers/projections_reader.py
index a105a94..7801928 100644
--- a/pipit/readers/projections_reader.py
+++ b/pipit/readers/projections_reader.py
@@ -513,7 +513,7 @@ class ProjectionsReader:
                     send_time = int(line_arr[7]) * 1000
                     num_procs = int(line_arr[8])
                     dest_procs = []
-                    for i in (0, num_procs):
+                    for i in range(num_procs):
                         dest_procs.append(int(line_arr[9 + i]))
 
                     details = {
@@ -523,7 +523,7 @@ class ProjectionsReader:
                         "Message Length": msglen,
                         "Event ID": event,
                         "Send Time": send_time,
-                        "Destinatopn PEs": dest_procs,
+                        "Destination PEs": dest_procs,
                     }
 
                     _add_to_trace_dict(
@@ -532,7 +532,7 @@ class ProjectionsReader:
                         "Instant",
                         time,
                         pe_num,
-                        "To " + str(num_procs) + "processors",
+                        details,
                     )
 
                 # Processing of chare (i.e. execution) ?
-- 
2.43.0


From b4f0d61086d3cbd2e3274109b76f6912a5aead17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:29 +0000
Subject: [PATCH 13/35] fix: unfinished Projections logs were closed at 1000
 times their end

The time of the last event already is in nanoseconds. A log that stops right
after the computation began was not closed at all.
---
 pipit/readers/projections_reader.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pipit/readers/projections_reader.py b/pipit/readers/projections_reader.py
index 7801928..cad02f7 100644
--- a/pipit/readers/projections_reader.py
+++ b/pipit/readers/projections_reader.py
@@ -790,8 +790,12 @@ class ProjectionsReader:
                     )
 
             # Making sure that the log file ends with END_COMPUTATION
-            if len(data["Name"]) > 0 and data["Name"][-1] != "Computation":
-                time = data["Timestamp (ns)"][-1] * 1000
+            if len(data["Name"]) > 0 and (
+                data["Name"][-1] != "Computation" or data["Event Type"][-1] != "Leave"
+            ):
+                # times are already in nanoseconds, and some
+                # events (User Supplied) don't have one
+                time = max(data["Timestamp (ns)"])
                 _add_to_trace_dict(data, "Computation", "Leave", time, pe_num, None)
 
             log_file.close()
-- 
2.43.0


From c4cd8bd04110936ff8ed3a4ec761e9b126cb3913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:29 +0000
Subject: [PATCH 14/35] fix: Projections reader reordered simultaneous events

With microsecond logs many events share a time, and an unstable sort could
put a Leave before its Enter.
---
 pipit/readers/projections_reader.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pipit/readers/projections_reader.py b/pipit/readers/projections_reader.py
index cad02f7..c86b3ac 100644
--- a/pipit/readers/projections_reader.py
+++ b/pipit/readers/projections_reader.py
@@ -300,8 +300,14 @@ class ProjectionsReader:
 
         # Concatenate the dataframes list into dataframe containing entire trace
         trace_df = pd.concat(dataframes_list, ignore_index=True)
+        # (stable, so that simultaneous events keep their order)
         trace_df.sort_values(
-            by="Timestamp (ns)", axis=0, ascending=True, inplace=True, ignore_index=True
+            by="Timestamp (ns)",
+            axis=0,
+            ascending=True,
+            inplace=True,
+            ignore_index=True,
+            kind="stable",
         )
 
         # categorical for memory savings
-- 
2.43.0


From f615271e4a417d7258f2ad8034b759d3a0d7d2af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:39 +0000
Subject: [PATCH 15/35] fix: ids of non-array chares were misread in
 Projections logs

A dimension of -1 made the ID List empty and used the first field before the
id (the receive time) as the CPU start time.
---
 pipit/readers/projections_reader.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pipit/readers/projections_reader.py b/pipit/readers/projections_reader.py
index c86b3ac..7d244e0 100644
--- a/pipit/readers/projections_reader.py
+++ b/pipit/readers/projections_reader.py
@@ -110,7 +110,10 @@ class STSReader:
 
     # To get the dimension of an entry
     def get_dimension(self, entry_id):
-        return self.chares[self.entries[entry_id][1]][1]
+        dimensions = self.chares[self.entries[entry_id][1]][1]
+        # chares that aren't array elements have the dimension -1 in the sts
+        # file, and their log records have an id of four numbers
+        return 4 if dimensions == -1 else dimensions
 
     # Gets the user event name from the user_event_id
     def get_user_event(self, user_event_id):
-- 
2.43.0


From 0c0cff74a09695d146dc42ea5d90df9e0e7d25dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:47 +0000
Subject: [PATCH 16/35] fix: OTF2 reader reordered simultaneous events

---
 pipit/readers/otf2_reader.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pipit/readers/otf2_reader.py b/pipit/readers/otf2_reader.py
index b685c3a..5d9f4d7 100644
--- a/pipit/readers/otf2_reader.py
+++ b/pipit/readers/otf2_reader.py
@@ -471,8 +471,14 @@ class OTF2Reader:
         events_dataframe["Timestamp (ns)"] *= (10**9) / resolution
 
         # ensures the DataFrame is in order of increasing timestamp
+        # (stable, so that simultaneous events keep their order)
         events_dataframe.sort_values(
-            by="Timestamp (ns)", axis=0, ascending=True, inplace=True, ignore_index=True
+            by="Timestamp (ns)",
+            axis=0,
+            ascending=True,
+            inplace=True,
+            ignore_index=True,
+            kind="stable",
         )
 
         # convert these to ints
-- 
2.43.0


From 10f073479ae2a80f5d9f89182827d9d3b4b30a45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:47 +0000
Subject: [PATCH 17/35] fix: OTF2 thread numbers were wrong for non-contiguous
 locations

The difference to the process's smallest location number is not a thread
number from 0 to n-1, and overflows for Score-P's location numbers.
---
 pipit/readers/otf2_reader.py | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/pipit/readers/otf2_reader.py b/pipit/readers/otf2_reader.py
index 5d9f4d7..f72f276 100644
--- a/pipit/readers/otf2_reader.py
+++ b/pipit/readers/otf2_reader.py
@@ -282,11 +282,10 @@ class OTF2Reader:
                         process_id = loc.group._ref
                         process_ids.append(process_id)
 
-                        # subtract the minimum location number of a process
-                        # from the location number to get threads numbered
-                        # 0 to (num_threads per process - 1) for each process.
+                        # threads are numbered 0 to
+                        # (num_threads per process - 1) for each process.
                         thread_ids.append(
-                            loc._ref - self.process_threads_map[process_id]
+                            self.process_threads_map[process_id].index(loc._ref)
                         )
 
                         # type of event - enter, leave, or other types
@@ -354,9 +353,10 @@ class OTF2Reader:
         DataFrame
         """
 
-        # OTF2 stores locations numbered from 0 to the (total number of threads - 1)
-        # across all processes. This dict will help us convert those to be orderered
-        # from 0 to (number of threads for each process - 1) per process instead.
+        # OTF2 numbers locations across all processes, and the numbers of a process
+        # don't have to be contiguous (Score-P puts the rank into the low and the
+        # thread into the high bits). This dict will help us convert those to be
+        # orderered from 0 to (number of threads for each process - 1) per process.
         self.process_threads_map = dict()
 
         # ids are the _ref attribute of an object
@@ -398,13 +398,13 @@ class OTF2Reader:
                             def_object.group._ref,
                         )
 
-                        # each process (location group) will be mapped to its
-                        # minimum location number, which we will use to number threads
-                        # appropriately by subtracting that min from its location nums
-                        if process_num not in self.process_threads_map:
-                            self.process_threads_map[process_num] = location_num
-                        elif location_num < self.process_threads_map[process_num]:
-                            self.process_threads_map[process_num] = location_num
+                        # each process (location group) will be mapped to the
+                        # sorted list of its location numbers, and the threads
+                        # are numbered by their position in it
+                        self.process_threads_map.setdefault(process_num, []).append(
+                            location_num
+                        )
+                        self.process_threads_map[process_num].sort()
 
                     if hasattr(def_object, "_ref"):
                         # only add ids for those definitions that have it
-- 
2.43.0


From 3701e1f888045eb81b8cc9bf7de0f2c59906feef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:47 +0000
Subject: [PATCH 18/35] fix: only the last digit of OTF2 metric ids was used

Metrics with an id of 10 or more raised a KeyError or got another one's name.
---
 pipit/readers/otf2_reader.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pipit/readers/otf2_reader.py b/pipit/readers/otf2_reader.py
index f72f276..1d597f2 100644
--- a/pipit/readers/otf2_reader.py
+++ b/pipit/readers/otf2_reader.py
@@ -211,9 +211,9 @@ class OTF2Reader:
             )
             metric_members = [] if len(metric_members) == 0 else metric_members[0]
 
-            # ids of metric members
+            # ids of metric members ("MetricMember 12")
             metric_ids = list(
-                map(lambda metric_member: int(metric_member[-1]), metric_members)
+                map(lambda member: int(member.split()[-1]), metric_members)
             )
 
             # names of metrics
-- 
2.43.0


From 989ee36025f9d1f73efd25214b46535a2218d941 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:47 +0000
Subject: [PATCH 19/35] fix: OTF2 traces with several metric classes could not
 be read

Only the members of the first class were known (KeyError for the others), and
an event paired with a part of the metrics left the columns misaligned.
---
 pipit/readers/otf2_reader.py | 38 ++++++++++++++++++++----------------
 1 file changed, 21 insertions(+), 17 deletions(-)

diff --git a/pipit/readers/otf2_reader.py b/pipit/readers/otf2_reader.py
index 1d597f2..34c432a 100644
--- a/pipit/readers/otf2_reader.py
+++ b/pipit/readers/otf2_reader.py
@@ -201,15 +201,17 @@ class OTF2Reader:
             https://scorepci.pages.jsc.fz-juelich.de/otf2-pipelines/doc.r4707/python/basics.html#metrics
             """
 
-            # get members of metric class
-            metric_members = (
+            # get members of all metric classes
+            metric_classes = (
                 self.definitions.loc[
                     self.definitions["Definition Type"] == "MetricClass"
                 ]["Attributes"]
                 .map(lambda attr: attr["members"])
                 .values
             )
-            metric_members = [] if len(metric_members) == 0 else metric_members[0]
+            metric_members = [
+                member for members in metric_classes for member in members
+            ]
 
             # ids of metric members ("MetricMember 12")
             metric_ids = list(
@@ -229,9 +231,9 @@ class OTF2Reader:
             # maps each metric to a list of its values
             metrics_dict = {metric_name: [] for metric_name in metric_names}
 
-            # used to keep track of time that the
-            # most recent metrics that were read at
-            prev_metric_time = -1
+            # used to keep track of the most recent metrics
+            # that were read and of the time they were read at
+            prev_metric_time, prev_metrics = -1, {}
 
             # iterates through the events and processes them
             for loc_event in loc_events:
@@ -254,25 +256,27 @@ class OTF2Reader:
                         )
                         metric_values = event.values
 
-                        # append the values for the metrics
-                        # to their appropriate lists
-                        for i in range(len(metrics)):
-                            metrics_dict[metrics[i]].append(metric_values[i])
-
-                        # store the metrics and their timestamp
+                        # store the metrics and their timestamp (an event
+                        # can be paired with metrics of several classes)
+                        if event.time != prev_metric_time:
+                            prev_metrics = {}
+                        prev_metrics.update(zip(metrics, metric_values))
                         prev_metric_time = event.time
                     else:
                         # MetricClass metric events are synchronous
                         # and coupled with an enter or leave event that
                         # has the same timestamp
                         if event.time != prev_metric_time:
-                            # if the event is not paired with any metric, then
-                            # add placeholders for all the metric lists
-                            for metric in metric_names:
-                                metrics_dict[metric].append(float("nan"))
+                            prev_metrics = {}
+
+                        # append the values for the metrics to their
+                        # appropriate lists, and add placeholders for
+                        # the metrics that the event is not paired with
+                        for metric, values in metrics_dict.items():
+                            values.append(prev_metrics.get(metric, float("nan")))
 
                         # reset this as a metric event was not read
-                        prev_metric_time = -1
+                        prev_metric_time, prev_metrics = -1, {}
 
                         """
                         Below is code to read the primary information about the
-- 
2.43.0


From c8431b7575f597cfb15bb400e897def6ae382813 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:39 +0000
Subject: [PATCH 20/35] fix: HPCToolkit source lines above 65535 were truncated

The line of a context's source location is a u32.
---
 pipit/readers/hpctoolkit_reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pipit/readers/hpctoolkit_reader.py b/pipit/readers/hpctoolkit_reader.py
index a6cda33..95adc1e 100644
--- a/pipit/readers/hpctoolkit_reader.py
+++ b/pipit/readers/hpctoolkit_reader.py
@@ -708,7 +708,7 @@ class MetaReader:
                     flex[0:8], byteorder=self.byte_order, signed=self.signed
                 )
                 sub_flex_2 = int.from_bytes(
-                    flex[8:10], byteorder=self.byte_order, signed=self.signed
+                    flex[8:12], byteorder=self.byte_order, signed=self.signed
                 )
                 flex = flex[16:]
                 source_file_index = self.__get_source_file_index(sub_flex_1)
-- 
2.43.0


From d417269ca58bbf0a99af2e83213d57769da15d2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:39 +0000
Subject: [PATCH 21/35] fix: HPCToolkit profiles without a NODE identifier
 raised KeyError

The identifier is called "NODE" everywhere else.
---
 pipit/readers/hpctoolkit_reader.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pipit/readers/hpctoolkit_reader.py b/pipit/readers/hpctoolkit_reader.py
index 95adc1e..6882b16 100644
--- a/pipit/readers/hpctoolkit_reader.py
+++ b/pipit/readers/hpctoolkit_reader.py
@@ -969,8 +969,8 @@ class ProfileReader:
 
     def __clean_hit(self, tuples_map: dict) -> dict:
         # add None for information not present
-        if "Node" not in tuples_map:
-            tuples_map["Node"] = None
+        if "NODE" not in tuples_map:
+            tuples_map["NODE"] = None
         if "RANK" not in tuples_map:
             tuples_map["RANK"] = None
         if "THREAD" not in tuples_map:
-- 
2.43.0


From ce3745be285ea08ed127f9e176bc07bee527d2d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:39 +0000
Subject: [PATCH 22/35] fix: anonymous HPCToolkit functions raised TypeError

A function without a name has no string index; show it as unknown.
---
 pipit/readers/hpctoolkit_reader.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pipit/readers/hpctoolkit_reader.py b/pipit/readers/hpctoolkit_reader.py
index 6882b16..9f4c02f 100644
--- a/pipit/readers/hpctoolkit_reader.py
+++ b/pipit/readers/hpctoolkit_reader.py
@@ -146,7 +146,10 @@ class MetaReader:
             # loop construct
             function_string = "loop"
             loop_type = True
-        elif function_index is not None:
+        elif (
+            function_index is not None
+            and self.functions_list[function_index]["string_index"] is not None
+        ):
             # The function map
             function = self.functions_list[function_index]
             # current_function_map = {"string_index": function_name_index, \
@@ -157,7 +160,7 @@ class MetaReader:
             # getting function name
             function_string = self.common_strings[function["string_index"]]
         else:
-            # function is unkown
+            # function is unkown or anonymous
             function_string = "<unkown function>"
 
         if load_module_index is not None:
-- 
2.43.0


From 5b248ffd4b9775ad9a8e9e5b31cbe59900bff1d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:39 +0000
Subject: [PATCH 23/35] fix: non-ASCII strings broke HPCToolkit databases

String offsets count bytes, not characters, and a multi-byte character can't
be decoded byte by byte.
---
 pipit/readers/hpctoolkit_reader.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pipit/readers/hpctoolkit_reader.py b/pipit/readers/hpctoolkit_reader.py
index 9f4c02f..7ad7161 100644
--- a/pipit/readers/hpctoolkit_reader.py
+++ b/pipit/readers/hpctoolkit_reader.py
@@ -279,7 +279,7 @@ class MetaReader:
         self.common_string_index_map: dict = {}
         for i in range(len(self.common_strings)):
             self.common_string_index_map[pointer_index] = i
-            pointer_index += len(self.common_strings[i]) + 1
+            pointer_index += len(self.common_strings[i].encode("UTF-8")) + 1
 
     def __get_load_modules_index(self, load_module_pointer: int) -> int:
         """
@@ -341,13 +341,13 @@ class MetaReader:
         and ending at the first occurence of the null character
         """
         self.file.seek(file_pointer)
-        name = ""
+        name = b""
         while True:
-            read = str(self.file.read(1), encoding="UTF-8")
-            if read == "\0":
+            read = self.file.read(1)
+            if read == b"\0":
                 break
             name += read
-        return name
+        return str(name, encoding="UTF-8")
 
     def get_identifier_name(self, kind: int):
         """
-- 
2.43.0


From eea2948096d4619df79808c42d47a4836532afaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:39 +0000
Subject: [PATCH 24/35] fix: truncated HPCToolkit databases were read as if
 complete, or forever

Reads beyond the end of the file returned no bytes, which decode to 0: a cut
trace.db made the reader loop without end, other cuts silently lost data.
---
 pipit/readers/hpctoolkit_reader.py | 28 +++++++++++++++++++++++++---
 1 file changed, 25 insertions(+), 3 deletions(-)

diff --git a/pipit/readers/hpctoolkit_reader.py b/pipit/readers/hpctoolkit_reader.py
index 7ad7161..2b2bfd1 100644
--- a/pipit/readers/hpctoolkit_reader.py
+++ b/pipit/readers/hpctoolkit_reader.py
@@ -9,6 +9,28 @@ import pipit.trace
 from pipit.graph import Graph, Node
 
 
+class DatabaseFile:
+    """
+    Binary file for which reading beyond the end is an error, so that truncated
+    databases are rejected instead of read as empty data
+    """
+
+    def __init__(self, file_location):
+        self.file = open(file_location, "rb")
+
+    def read(self, size):
+        data = self.file.read(size)
+        if len(data) < size:
+            raise EOFError("Unexpected end of file: " + str(self.file.name))
+        return data
+
+    def seek(self, position):
+        return self.file.seek(position)
+
+    def tell(self):
+        return self.file.tell()
+
+
 class MetaReader:
     # adds new context id and return new nid
     def _add_context_id(self, context_id) -> int:
@@ -18,7 +40,7 @@ class MetaReader:
 
     def __init__(self, file_location):
         # open the file to ready in binary mode (rb)
-        self.file = open(file_location, "rb")
+        self.file = DatabaseFile(file_location)
 
         # setting necessary read options
         self.byte_order = "little"
@@ -811,7 +833,7 @@ class ProfileReader:
         self.meta_reader: MetaReader = meta_reader
 
         # open the file to ready in binary mode (rb)
-        self.file = open(file_location, "rb")
+        self.file = DatabaseFile(file_location)
 
         # setting necessary read options
         self.byte_order = "little"
@@ -1028,7 +1050,7 @@ class TraceReader:
         self, file_location: str, meta_reader: MetaReader, profile_reader: ProfileReader
     ) -> None:
         # open file
-        self.file = open(file_location, "rb")
+        self.file = DatabaseFile(file_location)
         self.meta_reader = meta_reader
         self.profile_reader = profile_reader
 
-- 
2.43.0


From 802a1f45e1aa5692e3bef323bcbc80acc70ef961 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:25 +0000
Subject: [PATCH 25/35] fix: from_csv read functions called "null" or "NA" as
 missing

---
 pipit/trace.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pipit/trace.py b/pipit/trace.py
index 2dc2fa3..295a561 100644
--- a/pipit/trace.py
+++ b/pipit/trace.py
@@ -68,7 +68,10 @@ class Trace:
 
     @staticmethod
     def from_csv(filename):
-        events_dataframe = pd.read_csv(filename, skipinitialspace=True)
+        # names are text, even if they look like numbers or missing values ("null")
+        events_dataframe = pd.read_csv(
+            filename, skipinitialspace=True, converters={"Name": str}
+        )
 
         # if timestamps are in seconds, convert them to nanoseconds
         if "Timestamp (s)" in events_dataframe.columns:
-- 
2.43.0


From 4e1932a8aa145575806b90ee4df89913533cab56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:25 +0000
Subject: [PATCH 26/35] fix: Nsight ranges called "null" or "NA" were read as
 missing

---
 pipit/readers/nsight_reader.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pipit/readers/nsight_reader.py b/pipit/readers/nsight_reader.py
index f9f6cf9..65fb5d7 100644
--- a/pipit/readers/nsight_reader.py
+++ b/pipit/readers/nsight_reader.py
@@ -23,7 +23,8 @@ class NsightReader:
         """
 
         # Read in csv
-        self.df = pd.read_csv(self.file_name)
+        # (names are text, even if they look like numbers or missing values)
+        self.df = pd.read_csv(self.file_name, converters={"Name": str})
 
         # Grab the set of the column PID columns to see if
         # mutliprocess and convert to a list
-- 
2.43.0


From 2e65157c2d3b886562df471f6765ecc863b9bad2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:44 +0000
Subject: [PATCH 27/35] fix: deeply nested HPCToolkit contexts raised
 RecursionError

Context trees nested more than a few hundred levels deep (recursive
programs) exceeded Python's recursion limit while being read.
---
 pipit/graph.py                     | 10 ++++----
 pipit/readers/hpctoolkit_reader.py | 37 +++++++++++++++++++++---------
 2 files changed, 32 insertions(+), 15 deletions(-)

diff --git a/pipit/graph.py b/pipit/graph.py
index 0e94063..0540a73 100644
--- a/pipit/graph.py
+++ b/pipit/graph.py
@@ -73,10 +73,12 @@ class Node:
 
     def _calculate_level(self):
         """private function to get depth of node"""
-        if self.parent is None:
-            return 0
-        else:
-            return 1 + self.parent._calculate_level()
+        level = 0
+        node = self.parent
+        while node is not None:
+            level += 1
+            node = node.parent
+        return level
 
     def __eq__(self, obj) -> bool:
         if isinstance(obj, Node):
diff --git a/pipit/readers/hpctoolkit_reader.py b/pipit/readers/hpctoolkit_reader.py
index 2b2bfd1..107823f 100644
--- a/pipit/readers/hpctoolkit_reader.py
+++ b/pipit/readers/hpctoolkit_reader.py
@@ -645,14 +645,23 @@ class MetaReader:
         parent_context_id: int,
     ) -> None:
         """
-        Recursive function to read all child contexts and add it to the CCT
+        Reads all contexts below a context (children first) and adds them to the CCT
         """
 
-        if total_size <= 0 or context_array_pointer <= 0:
-            return
-        self.file.seek(context_array_pointer)
-        index = 0
-        while index < total_size:
+        # arrays of contexts that are not completely read, innermost last
+        # (not a recursive function, as contexts can be nested deeply)
+        pending = [
+            (context_array_pointer, total_size, parent_node, parent_context_id)
+        ]
+        while len(pending) > 0:
+            context_array_pointer, total_size, parent_node, parent_context_id = (
+                pending.pop()
+            )
+            if total_size <= 0 or context_array_pointer <= 0:
+                continue
+            self.file.seek(context_array_pointer)
+            index = 0
+
             # Reading information about child contexts (as in the children of
             # this context)
             # Total size of *pChildren (I call pChildren children_pointer),
@@ -817,12 +826,18 @@ class MetaReader:
 
             self.context_map[context_id] = context
 
-            # recursively call this function to add more children
-            return_address = self.file.tell()
-            self.__read_children_contexts(
-                children_pointer, children_size, next_parent_node, context_id
+            # continue with the children of this context, and then its siblings
+            pending.append(
+                (
+                    context_array_pointer + index,
+                    total_size - index,
+                    parent_node,
+                    parent_context_id,
+                )
+            )
+            pending.append(
+                (children_pointer, children_size, next_parent_node, context_id)
             )
-            self.file.seek(return_address)
 
 
 class ProfileReader:
-- 
2.43.0


From 1c727d26308e4414a2a3b6c488d751be97ae7bbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:25 +0000
Subject: [PATCH 28/35] fix: empty (truncated) Projections logs were read as
 PEs without events

---
 pipit/readers/projections_reader.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pipit/readers/projections_reader.py b/pipit/readers/projections_reader.py
index 7d244e0..0e706f2 100644
--- a/pipit/readers/projections_reader.py
+++ b/pipit/readers/projections_reader.py
@@ -354,9 +354,11 @@ class ProjectionsReader:
             data = self._create_empty_dict()
 
             # opening the log file we need to read
-            log_file = gzip.open(
-                self.executable_location + "." + str(pe_num) + ".log.gz", "rt"
-            )
+            log_location = self.executable_location + "." + str(pe_num) + ".log.gz"
+            if os.path.getsize(log_location) == 0:
+                # gzip doesn't report this, unlike other truncated files
+                raise EOFError("Log file is empty: " + log_location)
+            log_file = gzip.open(log_location, "rt")
 
             # Basing read on projections log reader and log entry viewer
             # Iterated through every line in the file and adds to dict
-- 
2.43.0


From 398959d2be2ddb2a678908ee5b0a49af2818d809 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:02 +0000
Subject: [PATCH 29/35] fix: Chrome export lost precision of times since the
 epoch

---
 pipit/writers/chrome_writer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pipit/writers/chrome_writer.py b/pipit/writers/chrome_writer.py
index fdc7a19..ee21eb2 100644
--- a/pipit/writers/chrome_writer.py
+++ b/pipit/writers/chrome_writer.py
@@ -33,7 +33,8 @@ class ChromeWriter:
         )
 
         # "ts" represents is the timestamp (in microseconds) of the event
-        df["ts"] = (events["Timestamp (ns)"] / 1e3).astype(int)
+        # (integer division, as floats can't represent times since the epoch)
+        df["ts"] = (events["Timestamp (ns)"] // 1000).astype(int)
 
         # "pid" represents the process ID for the process that the event occurs in
         df["pid"] = events["Process"]
-- 
2.43.0


From 08ae57e42c7766e84e4d35c8065ad9bf38a07b72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:02 +0000
Subject: [PATCH 30/35] fix: Chrome export rounded attribute values to 10
 decimals

---
 pipit/writers/chrome_writer.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pipit/writers/chrome_writer.py b/pipit/writers/chrome_writer.py
index ee21eb2..533fb55 100644
--- a/pipit/writers/chrome_writer.py
+++ b/pipit/writers/chrome_writer.py
@@ -48,4 +48,7 @@ class ChromeWriter:
             df["args"] = events["Attributes"]
 
         # Write the dataframe to a JSON file
-        return df.to_json(path_or_buf=self.filename, orient="records")
+        # (by default, numbers in the args would be rounded to 10 decimals)
+        return df.to_json(
+            path_or_buf=self.filename, orient="records", double_precision=15
+        )
-- 
2.43.0


From b8ad28ec20cc8a589cca8a070ce30648608d47a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:12 +0000
Subject: [PATCH 31/35] fix: detect_pattern returned rows of other processes

Rows were selected by timestamp, so that patterns also contained
simultaneous events of other processes.
---
 pipit/trace.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/pipit/trace.py b/pipit/trace.py
index 295a561..5eedc86 100644
--- a/pipit/trace.py
+++ b/pipit/trace.py
@@ -870,11 +870,7 @@ class Trace:
         for idx in indices[0]:
             end_idx = idx + window_size
 
-            match_original = self.events.loc[
-                self.events["Timestamp (ns)"].isin(
-                    filtered_df.iloc[idx:end_idx]["Timestamp (ns)"].values
-                )
-            ]
+            match_original = self.events.loc[filtered_df.iloc[idx:end_idx].index]
             patterns.append(match_original)
 
         return patterns
-- 
2.43.0


From f6230fe870cafed2122f207bf078138dde01235f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:46 +0000
Subject: [PATCH 32/35] fix: export loops of HPCToolkit traces to Chrome as
 begin and end events

---
 pipit/writers/chrome_writer.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pipit/writers/chrome_writer.py b/pipit/writers/chrome_writer.py
index 533fb55..5e6ecd8 100644
--- a/pipit/writers/chrome_writer.py
+++ b/pipit/writers/chrome_writer.py
@@ -28,8 +28,10 @@ class ChromeWriter:
         # "ph" represents event type -- also called "phase"
         # Rename Enter events to "B" (begin), Leave events to "E" (end),
         # and Instant events to "i"
+        # (loops of HPCToolkit traces are intervals as well)
         df["ph"] = events["Event Type"].replace(
-            ["Enter", "Leave", "Instant"], ["B", "E", "i"]
+            ["Enter", "Leave", "Instant", "Loop Enter", "Loop Leave"],
+            ["B", "E", "i", "B", "E"],
         )
 
         # "ts" represents is the timestamp (in microseconds) of the event
-- 
2.43.0


From 22abaa70fdb260292eafd67ec8840d30ff35df83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:55 +0000
Subject: [PATCH 33/35] fix: HPCToolkit databases without ranks had no Process
 column

---
 pipit/readers/hpctoolkit_reader.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pipit/readers/hpctoolkit_reader.py b/pipit/readers/hpctoolkit_reader.py
index 107823f..57c085f 100644
--- a/pipit/readers/hpctoolkit_reader.py
+++ b/pipit/readers/hpctoolkit_reader.py
@@ -1387,6 +1387,12 @@ class HPCToolkitReader:
 
     def read(self) -> pipit.trace.Trace:
         trace_df = pd.DataFrame(self.trace_reader.data)
+
+        # programs that don't use MPI have no ranks: they are a single process
+        # (every analysis needs the column)
+        if trace_df["Process"].isnull().all():
+            trace_df["Process"] = 0
+
         # Need to sort df by timestamp then index
         # (since many events occur at the same timestamp)
 
-- 
2.43.0


From 306774369bf2deca8abd1593d507ef4ca4f37068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:01 +0000
Subject: [PATCH 34/35] fix: detect_pattern raised KeyError unless metrics were
 calculated before

---
 pipit/trace.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pipit/trace.py b/pipit/trace.py
index 5eedc86..031d924 100644
--- a/pipit/trace.py
+++ b/pipit/trace.py
@@ -830,6 +830,12 @@ class Trace:
     ):
         import stumpy
 
+        # calculate metrics of time if needed
+        if metric == "time.exc":
+            self.calc_exc_metrics(["Timestamp (ns)"])
+        elif metric == "time.inc":
+            self.calc_inc_metrics(["Timestamp (ns)"])
+
         enter_events = self.events[
             (self.events["Name"] == start_event)
             & (self.events["Event Type"] == "Enter")
-- 
2.43.0


From c513e9ba51871f3804e1dab156dc0a7ed799bdf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:10 +0000
Subject: [PATCH 35/35] fix: reject Projections sts files that were cut off

---
 pipit/readers/projections_reader.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pipit/readers/projections_reader.py b/pipit/readers/projections_reader.py
index 0e706f2..b2ccf77 100644
--- a/pipit/readers/projections_reader.py
+++ b/pipit/readers/projections_reader.py
@@ -136,6 +136,7 @@ class STSReader:
         return self.user_events[event_id]
 
     def read_sts_file(self):
+        complete = False
         for line in self.sts_file:
             line_arr = line.split()
 
@@ -221,8 +222,15 @@ class STSReader:
                 papi_event = line_arr[2]
                 self.papi_event_names[id] = papi_event
 
+            # last line of the file
+            elif line_arr[0] == "END":
+                complete = True
+
         self.sts_file.close()
 
+        if not complete:
+            raise ValueError("The sts file is truncated (it has no END line).")
+
 
 class ProjectionsReader:
     def __init__(
-- 
2.43.0

