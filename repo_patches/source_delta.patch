From ca33e60ca48363ce9bf0a68dcdb836172f0a4ecb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:23 +0000
Subject: [PATCH 01/47] fix: record 128 + signal for runs which dump core

---
 dsari/daemon.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dsari/daemon.py b/dsari/daemon.py
index 1f40463..32df830 100644
--- a/dsari/daemon.py
+++ b/dsari/daemon.py
@@ -44,7 +44,8 @@ __version__ = dsari.__version__
 def wait_deadline(pid, options, deadline, interval=0.05):
     while True:
         (child_pid, child_exit, child_resource) = os.wait4(pid, options)
-        child_signal = child_exit % 256
+        # The high bit (0x80) is the core dump flag, not part of the signal
+        child_signal = child_exit & 0x7F
         if child_signal > 0:
             child_exit = 128 + child_signal
         else:
-- 
2.43.0


From 9448f23a59f0dd5c4e74cc24eb641ef9e6e6b2c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:52 +0000
Subject: [PATCH 02/47] fix: never send SIGKILL for max_execution before
 SIGTERM and its grace

A pass delayed past max_execution + max_execution_grace (or a grace of 0)
sent SIGKILL without any SIGTERM, and the grace was counted from the limit
rather than from the SIGTERM as documented.
---
 dsari/daemon.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/dsari/daemon.py b/dsari/daemon.py
index 32df830..674c118 100644
--- a/dsari/daemon.py
+++ b/dsari/daemon.py
@@ -163,6 +163,7 @@ class Scheduler:
                 )
                 os.kill(run.pid, signal.SIGTERM)
                 run.term_sent = True
+                run.term_time = self.shutdown_begin
         elif len(self.running_runs) > 0:
             self.logger.info("Shutdown will proceed after runs have completed")
 
@@ -310,7 +311,11 @@ class Scheduler:
         sigkill_grace = seconds_to_td(5.0)
         now = dtnow()
         delta = now - run.start_time
-        if delta > (job.max_execution + sigterm_grace):
+        if (
+            delta > job.max_execution
+            and run.term_sent
+            and now > (run.term_time + sigterm_grace)
+        ):
             if not run.kill_sent:
                 self.logger.warning(
                     "[{} {}] SIGTERM grace ({}) exceeded, sending SIGKILL to {}".format(
@@ -329,7 +334,8 @@ class Scheduler:
                 )
                 os.kill(run.pid, signal.SIGTERM)
                 run.term_sent = True
-            self.wakeups.append(now + sigterm_grace)
+                run.term_time = now
+            self.wakeups.append(run.term_time + sigterm_grace)
         else:
             self.wakeups.append(run.start_time + job.max_execution)
 
-- 
2.43.0


From e87f856298ce0156fd40c3378079ffc3afe712ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:52 +0000
Subject: [PATCH 03/47] fix: act on signals between passes instead of in the
 signal handler

The handler changed the run lists and reloaded the configuration wherever
it interrupted the main loop: a shutdown request could be followed by a new
run or crash the daemon, and a collected PID could be signalled.
---
 dsari/daemon.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/dsari/daemon.py b/dsari/daemon.py
index 674c118..c3b87c6 100644
--- a/dsari/daemon.py
+++ b/dsari/daemon.py
@@ -103,6 +103,7 @@ def parse_args():
 class Scheduler:
     def __init__(self, args):
         self.shutdown = False
+        self.pending_signals = []
         self.args = args
         self.load_config()
 
@@ -188,7 +189,16 @@ class Scheduler:
             run.kill_sent = True
 
     def signal_handler(self, signum, frame):
+        # This may interrupt any point of the main loop, so only make a note
+        # here; the signal is acted upon at the beginning of the next pass.
+        self.pending_signals.append(signum)
         self.next_wakeup = dtnow()
+
+    def process_signals(self):
+        while len(self.pending_signals) > 0:
+            self.process_signal(self.pending_signals.pop(0))
+
+    def process_signal(self, signum):
         if signum in (signal.SIGINT, signal.SIGTERM):
             if signum == signal.SIGINT:
                 self.logger.info("SIGINT received, beginning shutdown")
@@ -741,15 +751,20 @@ class Scheduler:
         for wakeup in self.wakeups:
             if wakeup < self.next_wakeup:
                 self.next_wakeup = wakeup
+        if len(self.pending_signals) > 0:
+            self.next_wakeup = dtnow()
 
     def loop(self):
         while True:
+            self.process_signals()
             self.wakeups = []
             self.process_triggers()
 
             scheduled_runs = copy.copy(self.scheduled_runs)
             random.shuffle(scheduled_runs)
             for run in scheduled_runs:
+                if len(self.pending_signals) > 0:
+                    break
                 self.process_scheduled_run(run)
 
             for run in self.running_runs:
-- 
2.43.0


From ff3f390c8d6c30e93ea133782577867367f79750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:52 +0000
Subject: [PATCH 04/47] fix: notice signals while waiting for running jobs

The wait used the deadline computed before it began, so a signal was only
acted upon up to 60 seconds later while a run was in progress.
---
 dsari/daemon.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/dsari/daemon.py b/dsari/daemon.py
index c3b87c6..2999325 100644
--- a/dsari/daemon.py
+++ b/dsari/daemon.py
@@ -52,7 +52,8 @@ def wait_deadline(pid, options, deadline, interval=0.05):
             child_exit = child_exit >> 8
         if child_pid != 0:
             return (child_pid, child_exit, child_resource)
-        if dtnow() >= deadline:
+        # The deadline may be moved by a signal while waiting
+        if dtnow() >= (deadline() if callable(deadline) else deadline):
             return (child_pid, child_exit, child_resource)
         time.sleep(interval)
 
@@ -489,7 +490,7 @@ class Scheduler:
             "Waiting up to {} for running jobs".format(self.next_wakeup - dtnow())
         )
         (child_pid, child_exit, child_resource) = wait_deadline(
-            -1, os.WNOHANG, self.next_wakeup
+            -1, os.WNOHANG, lambda: self.next_wakeup
         )
         if child_pid == 0:
             return child_pid
-- 
2.43.0


From b5a8d5945abef3fa250e10e4b2794ac357f57350 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:52 +0000
Subject: [PATCH 05/47] fix: keep running with the current configuration if a
 reload fails

---
 dsari/daemon.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/dsari/daemon.py b/dsari/daemon.py
index 2999325..b531535 100644
--- a/dsari/daemon.py
+++ b/dsari/daemon.py
@@ -208,7 +208,13 @@ class Scheduler:
             self.begin_shutdown()
         elif signum == signal.SIGHUP:
             self.logger.info("SIGHUP received, reloading")
-            self.load_config()
+            try:
+                self.load_config()
+            except (dsari.config.ConfigError, OSError) as e:
+                self.logger.error(
+                    "Cannot load configuration, keeping the current one: {}".format(e)
+                )
+                return
             self.reset_jobs()
         elif signum == signal.SIGQUIT:
             self.sigquit_status()
-- 
2.43.0


From 3276e5c4bf5cff4e638c6bcecd9504b6ba44489a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:54 +0000
Subject: [PATCH 06/47] fix: return the localized time for a time zone given by
 name

A trigger with schedule_timezone crashed the daemon.
---
 dsari/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dsari/utils.py b/dsari/utils.py
index d1d9d90..13023fc 100644
--- a/dsari/utils.py
+++ b/dsari/utils.py
@@ -87,7 +87,7 @@ def dtlocalize(dt, tz=None):
         if isinstance(tz, datetime.tzinfo):
             return dt.astimezone(tz)
         elif not isinstance(dateutil_tz, ImportError):
-            dt.astimezone(dateutil_tz.gettz(tz))
+            return dt.astimezone(dateutil_tz.gettz(tz))
         else:
             return dt.astimezone()
     else:
-- 
2.43.0


From 48cd275dfe5553a6cd65ebbe5d290edf0329f60c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:54 +0000
Subject: [PATCH 07/47] fix: do not let an invalid trigger file end the daemon

Invalid JSON (e.message), invalid YAML, unusable times and data which cannot
be recorded as JSON all raised out of the main loop.
---
 dsari/daemon.py | 28 +++++++++++++++++++++-------
 1 file changed, 21 insertions(+), 7 deletions(-)

diff --git a/dsari/daemon.py b/dsari/daemon.py
index b531535..1fde3e4 100644
--- a/dsari/daemon.py
+++ b/dsari/daemon.py
@@ -6,6 +6,7 @@
 
 import argparse
 import copy
+import json
 import logging
 import math
 import os
@@ -565,8 +566,8 @@ class Scheduler:
             break
         if trigger_file is None:
             return
-        t = dtlocalize(epoch_to_dt(os.path.getmtime(trigger_file)))
         try:
+            t = dtlocalize(epoch_to_dt(os.path.getmtime(trigger_file)))
             j = load_structured_file(
                 trigger_file, file_type=trigger_file_type, delete_during=True
             )
@@ -578,10 +579,9 @@ class Scheduler:
             # Likely during os.remove()
             # Return silently, otherwise we spam the log during each loop
             return
-        except ValueError as e:
-            self.logger.error(
-                "[{}] Cannot load trigger: {}".format(job.name, e.message)
-            )
+        except Exception as e:
+            # Invalid JSON or YAML
+            self.logger.error("[{}] Cannot load trigger: {}".format(job.name, e))
             return
         if type(j) != dict:
             self.logger.error(
@@ -593,14 +593,28 @@ class Scheduler:
                 "[{}] Cannot load trigger: environment must be a dict".format(job.name)
             )
             return
+        try:
+            json.dumps(j)
+        except Exception as e:
+            # YAML allows for data which cannot be recorded as JSON
+            self.logger.error("[{}] Cannot load trigger: {}".format(job.name, e))
+            return
 
         if "schedule_time" in j:
             if type(j["schedule_time"]) in (int, float):
-                t = epoch_to_dt(float(j["schedule_time"]))
+                try:
+                    t = dtlocalize(epoch_to_dt(float(j["schedule_time"])))
+                except (ValueError, OverflowError, OSError):
+                    self.logger.error(
+                        '[{}] Invalid schedule_time "{}" for trigger'.format(
+                            job.name, j["schedule_time"]
+                        )
+                    )
+                    return
             elif not isinstance(dateutil_parser, ImportError):
                 try:
                     t = dateutil_parser.parse(j["schedule_time"])
-                except ValueError:
+                except Exception:
                     self.logger.error(
                         '[{}] Invalid schedule_time "{}" for trigger'.format(
                             job.name, j["schedule_time"]
-- 
2.43.0


From e544bbff7d62a45c791cadb4a5e11cb3f67a057b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:54 +0000
Subject: [PATCH 08/47] fix: interpret a trigger's schedule_time in its
 schedule_timezone

The time was taken as local time, and an unknown time zone was ignored or
raised out of the main loop.
---
 dsari/daemon.py | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/dsari/daemon.py b/dsari/daemon.py
index 1fde3e4..4352ee2 100644
--- a/dsari/daemon.py
+++ b/dsari/daemon.py
@@ -26,6 +26,11 @@ try:
 except ImportError as e:
     dateutil_parser = e
 
+try:
+    import dateutil.tz as dateutil_tz
+except ImportError as e:
+    dateutil_tz = e
+
 import dsari
 import dsari.config
 import dsari.database
@@ -628,7 +633,23 @@ class Scheduler:
                     )
                 )
                 return
-        t = dtlocalize(t, j.get("schedule_timezone"))
+        try:
+            tz = None
+            if "schedule_timezone" in j:
+                tz = dateutil_tz.gettz(j["schedule_timezone"])
+                if tz is None:
+                    raise ValueError("Unknown time zone")
+            if t.tzinfo is None and tz is not None:
+                # Relative to the specified time zone, not the local one
+                t = t.replace(tzinfo=tz)
+            t = dtlocalize(t, tz)
+        except Exception:
+            self.logger.error(
+                '[{}] Invalid schedule_timezone "{}" for trigger'.format(
+                    job.name, j.get("schedule_timezone")
+                )
+            )
+            return
 
         if "environment" in j:
             try:
-- 
2.43.0


From 382fa12d21063caf7f3d10578afbd35483599a40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:54 +0000
Subject: [PATCH 09/47] fix: ignore return data which cannot be recorded as
 JSON

The daemon ended without recording the run.
---
 dsari/daemon.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dsari/daemon.py b/dsari/daemon.py
index 4352ee2..cf28e84 100644
--- a/dsari/daemon.py
+++ b/dsari/daemon.py
@@ -539,9 +539,12 @@ class Scheduler:
             break
         if return_data_file is not None:
             try:
-                run.run_data["return_data"] = load_structured_file(
+                return_data = load_structured_file(
                     return_data_file, file_type=return_data_file_type
                 )
+                # YAML allows for data which cannot be recorded as JSON
+                json.dumps(return_data)
+                run.run_data["return_data"] = return_data
             except Exception:
                 pass
 
-- 
2.43.0


From c6193cc8cef2b17a3d3f91e9632a8cf6cf22b699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:52 +0000
Subject: [PATCH 10/47] fix: wake up for the next scheduled run of a job which
 was just started

The next run was scheduled after the wakeups of the pass had been collected,
so it was only noticed after up to 60 seconds.
---
 dsari/daemon.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dsari/daemon.py b/dsari/daemon.py
index cf28e84..1b624d6 100644
--- a/dsari/daemon.py
+++ b/dsari/daemon.py
@@ -785,6 +785,7 @@ class Scheduler:
             run.trigger_type = "schedule"
             run.schedule_time = t
             self.scheduled_runs.append(run)
+            self.wakeups.append(t)
             self.logger.debug(
                 "[{} {}] Next scheduled run: {} ({})".format(
                     job.name, run.id, t, (t - now)
-- 
2.43.0


From d5c24e008101e0697392785adb4c87369f4ca7fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:49 +0000
Subject: [PATCH 11/47] fix: refuse names with a trailing newline and names
 which are not text

---
 dsari/config.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/dsari/config.py b/dsari/config.py
index bc56e8b..9e8f75b 100644
--- a/dsari/config.py
+++ b/dsari/config.py
@@ -74,13 +74,15 @@ class ConfigLoader:
         self.config = config
 
     def is_valid_name(self, job_name):
+        if not isinstance(job_name, str):
+            return False
         if "/" in job_name:
             return False
         if job_name in (".", ".."):
             return False
         if len(job_name) > 64:
             return False
-        if not re.search("^([- A-Za-z0-9_+.:@]+)$", job_name):
+        if not re.fullmatch("([- A-Za-z0-9_+.:@]+)", job_name):
             return False
         return True
 
@@ -205,6 +207,8 @@ class ConfigLoader:
                     "Job group {}: job_names required".format(job_group_name)
                 )
             for job_name in job_template["job_names"]:
+                if not self.is_valid_name(job_name):
+                    raise ConfigError("Job {}: Invalid name".format(job_name))
                 jobs[job_name] = copy.deepcopy(job_template)
                 jobs[job_name]["job_group"] = job_group_name
                 del jobs[job_name]["job_names"]
@@ -259,17 +263,15 @@ class ConfigLoader:
         if "concurrency_groups" not in job_dict:
             return
         for concurrency_group_name in job_dict["concurrency_groups"]:
+            if not self.is_valid_name(concurrency_group_name):
+                raise ConfigError(
+                    "Concurrency group {}: Invalid name".format(concurrency_group_name)
+                )
             if concurrency_group_name in self.config.concurrency_groups:
                 concurrency_group = self.config.concurrency_groups[
                     concurrency_group_name
                 ]
             else:
-                if not self.is_valid_name(concurrency_group_name):
-                    raise ConfigError(
-                        "Concurrency group {}: Invalid name".format(
-                            concurrency_group_name
-                        )
-                    )
                 concurrency_group = dsari.ConcurrencyGroup(concurrency_group_name)
                 self.config.concurrency_groups[
                     concurrency_group.name
-- 
2.43.0


From 99356fab7dd807c8d3da9316d8db124d1e5c2fb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:59 +0000
Subject: [PATCH 12/47] fix: refuse configuration files which cannot be parsed
 or are no mappings

---
 dsari/config.py | 31 ++++++++++++++++---------------
 1 file changed, 16 insertions(+), 15 deletions(-)

diff --git a/dsari/config.py b/dsari/config.py
index 9e8f75b..8420118 100644
--- a/dsari/config.py
+++ b/dsari/config.py
@@ -86,19 +86,25 @@ class ConfigLoader:
             return False
         return True
 
+    def load_file(self, config, file, file_type):
+        try:
+            data = utils.load_structured_file(file, file_type=file_type)
+        except OSError:
+            raise
+        except Exception as e:
+            raise ConfigError("{}: {}".format(file, e))
+        if data is None:
+            # Empty YAML file
+            return config
+        if not isinstance(data, dict):
+            raise ConfigError("{}: Must be an associative array".format(file))
+        return utils.dict_merge(config, data)
+
     def load_dir(self, config_dir=DEFAULT_CONFIG_DIR):
         config = {}
         for fn, fn_type in [("dsari.yaml", "yaml"), ("dsari.json", "json")]:
             if os.path.exists(os.path.join(config_dir, fn)):
-                try:
-                    config = utils.dict_merge(
-                        config,
-                        utils.load_structured_file(
-                            os.path.join(config_dir, fn), file_type=fn_type
-                        ),
-                    )
-                except (ValueError, ImportError) as e:
-                    raise ConfigError(e)
+                config = self.load_file(config, os.path.join(config_dir, fn), fn_type)
         self.config.config_d = os.path.join(config_dir, "config.d")
         if "config_d" in config:
             self.config.config_d = config["config_d"]
@@ -115,12 +121,7 @@ class ConfigLoader:
                 ]
                 config_files.sort()
                 for file in config_files:
-                    try:
-                        config = utils.dict_merge(
-                            config, utils.load_structured_file(file, file_type=fn_type)
-                        )
-                    except (ValueError, ImportError) as e:
-                        raise ConfigError(e)
+                    config = self.load_file(config, file, fn_type)
 
         self.load(config)
 
-- 
2.43.0


From b57e204e63d36fbb1e8638ebfa471f86d50e83b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:29 +0000
Subject: [PATCH 13/47] fix: refuse configuration sections which are no
 mappings or lists

---
 dsari/config.py | 30 ++++++++++++++++++++++++++++++
 1 file changed, 30 insertions(+)

diff --git a/dsari/config.py b/dsari/config.py
index 8420118..b39892a 100644
--- a/dsari/config.py
+++ b/dsari/config.py
@@ -108,6 +108,8 @@ class ConfigLoader:
         self.config.config_d = os.path.join(config_dir, "config.d")
         if "config_d" in config:
             self.config.config_d = config["config_d"]
+        if self.config.config_d and not isinstance(self.config.config_d, str):
+            raise ConfigError("Config: config_d: Must be a string")
         if self.config.config_d and os.path.isdir(self.config.config_d):
             config_d = self.config.config_d
 
@@ -125,6 +127,14 @@ class ConfigLoader:
 
         self.load(config)
 
+    def check_type(self, level, v, valid_type):
+        if not isinstance(v, valid_type):
+            raise ConfigError(
+                "{}: Invalid value {} (expected {})".format(
+                    level, repr(type(v)), repr(valid_type)
+                )
+            )
+
     def populate_object(self, obj, level, source, valid_values, value_transforms):
         for k, v in source.items():
             if k not in valid_values:
@@ -171,6 +181,7 @@ class ConfigLoader:
         if "concurrency_groups" not in config:
             return
 
+        self.check_type("concurrency_groups", config["concurrency_groups"], dict)
         valid_values = {"max": (int,)}
         value_transforms = {}
 
@@ -182,6 +193,11 @@ class ConfigLoader:
                     "Concurrency group {}: Invalid name".format(concurrency_group_name)
                 )
             concurrency_group = dsari.ConcurrencyGroup(concurrency_group_name)
+            self.check_type(
+                "Concurrency group {}".format(concurrency_group_name),
+                concurrency_group_dict,
+                dict,
+            )
             self.populate_object(
                 concurrency_group,
                 "Concurrency group {}".format(concurrency_group_name),
@@ -198,15 +214,23 @@ class ConfigLoader:
         job_groups = {}
         if "job_groups" in config:
             job_groups = config["job_groups"]
+        self.check_type("jobs", jobs, dict)
+        self.check_type("job_groups", job_groups, dict)
 
         for job_group_name, job_group_dict in job_groups.items():
             if not self.is_valid_name(job_group_name):
                 raise ConfigError("Job group {}: Invalid name".format(job_group_name))
+            self.check_type("Job group {}".format(job_group_name), job_group_dict, dict)
             job_template = copy.deepcopy(job_group_dict)
             if "job_names" not in job_template:
                 raise ConfigError(
                     "Job group {}: job_names required".format(job_group_name)
                 )
+            self.check_type(
+                "Job group {}: job_names".format(job_group_name),
+                job_template["job_names"],
+                list,
+            )
             for job_name in job_template["job_names"]:
                 if not self.is_valid_name(job_name):
                     raise ConfigError("Job {}: Invalid name".format(job_name))
@@ -240,6 +264,7 @@ class ConfigLoader:
 
         if not self.is_valid_name(job_name):
             raise ConfigError("Job {}: Invalid name".format(job_name))
+        self.check_type("Job {}".format(job_name), job_dict, dict)
         if "command" not in job_dict:
             raise ConfigError("Job {}: command required".format(job_name))
         if type(job_dict["command"]) == str:
@@ -263,6 +288,11 @@ class ConfigLoader:
     def build_job_concurrency_groups(self, job, job_dict):
         if "concurrency_groups" not in job_dict:
             return
+        self.check_type(
+            "Job {}: concurrency_groups".format(job.name),
+            job_dict["concurrency_groups"],
+            list,
+        )
         for concurrency_group_name in job_dict["concurrency_groups"]:
             if not self.is_valid_name(concurrency_group_name):
                 raise ConfigError(
-- 
2.43.0


From 61b14fbdf68e208aa1f60fca1d66da23ee07f8fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:29 +0000
Subject: [PATCH 14/47] fix: refuse an unknown schedule_timezone

---
 dsari/config.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/dsari/config.py b/dsari/config.py
index b39892a..3b0d341 100644
--- a/dsari/config.py
+++ b/dsari/config.py
@@ -69,6 +69,13 @@ class Config:
         self.database = {"type": "sqlite3", "file": None}
 
 
+def get_timezone(name):
+    tz = utils.dateutil_tz.gettz(name)
+    if tz is None:
+        raise ValueError("Unknown time zone {}".format(repr(name)))
+    return tz
+
+
 class ConfigLoader:
     def __init__(self, config):
         self.config = config
@@ -256,7 +263,7 @@ class ConfigLoader:
             "concurrent_runs": (bool,),
         }
         value_transforms = {
-            "schedule_timezone": utils.dateutil_tz.gettz,
+            "schedule_timezone": get_timezone,
             "max_execution": utils.seconds_to_td,
             "max_execution_grace": utils.seconds_to_td,
             "environment": lambda x: utils.validate_environment_dict(copy.deepcopy(x)),
-- 
2.43.0


From a7456578c3906297d48657ba25e5cb9861ec5116 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:36 +0000
Subject: [PATCH 15/47] fix: refuse commands which are empty or not lists of
 text

---
 dsari/config.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/dsari/config.py b/dsari/config.py
index 3b0d341..9589091 100644
--- a/dsari/config.py
+++ b/dsari/config.py
@@ -275,7 +275,15 @@ class ConfigLoader:
         if "command" not in job_dict:
             raise ConfigError("Job {}: command required".format(job_name))
         if type(job_dict["command"]) == str:
-            job_dict["command"] = shlex.split(job_dict["command"])
+            try:
+                job_dict["command"] = shlex.split(job_dict["command"])
+            except ValueError as e:
+                raise ConfigError("Job {}: Invalid command: {}".format(job_name, e))
+        self.check_type("Job {}: command".format(job_name), job_dict["command"], list)
+        if len(job_dict["command"]) == 0:
+            raise ConfigError("Job {}: command required".format(job_name))
+        for arg in job_dict["command"]:
+            self.check_type("Job {}: command argument".format(job_name), arg, str)
         job = dsari.Job(job_name)
         self.populate_object(
             job, "Job {}".format(job_name), job_dict, valid_values, value_transforms
-- 
2.43.0


From e22bae4a979f40748d3fe36bb22ab758be92686c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:44 +0000
Subject: [PATCH 16/47] fix: refuse time limits which no time can be computed
 with

---
 dsari/config.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/dsari/config.py b/dsari/config.py
index 9589091..c8b853f 100644
--- a/dsari/config.py
+++ b/dsari/config.py
@@ -5,6 +5,7 @@
 # SPDX-License-Identifier: MPL-2.0
 
 import copy
+import datetime
 import os
 import re
 import shlex
@@ -76,6 +77,14 @@ def get_timezone(name):
     return tz
 
 
+def get_time_limit(seconds):
+    td = utils.seconds_to_td(seconds)
+    # Must be possible to add to (or subtract from) any current time
+    if abs(td) > datetime.timedelta(days=365000):
+        raise OverflowError("Time limit out of range")
+    return td
+
+
 class ConfigLoader:
     def __init__(self, config):
         self.config = config
@@ -177,7 +186,7 @@ class ConfigLoader:
             "database": (dict,),
         }
         value_transforms = {
-            "shutdown_kill_grace": utils.seconds_to_td,
+            "shutdown_kill_grace": get_time_limit,
             "environment": lambda x: utils.validate_environment_dict(copy.deepcopy(x)),
         }
         self.populate_object(
@@ -264,8 +273,8 @@ class ConfigLoader:
         }
         value_transforms = {
             "schedule_timezone": get_timezone,
-            "max_execution": utils.seconds_to_td,
-            "max_execution_grace": utils.seconds_to_td,
+            "max_execution": get_time_limit,
+            "max_execution_grace": get_time_limit,
             "environment": lambda x: utils.validate_environment_dict(copy.deepcopy(x)),
         }
 
-- 
2.43.0


From 60b242982ca03e71a13c6b339469f25afd85b6a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:12 +0000
Subject: [PATCH 17/47] fix: use the documented database defaults and refuse
 unusable database options

---
 dsari/config.py   | 11 +++++++++++
 dsari/database.py |  2 +-
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/dsari/config.py b/dsari/config.py
index c8b853f..e168c8a 100644
--- a/dsari/config.py
+++ b/dsari/config.py
@@ -85,6 +85,16 @@ def get_time_limit(seconds):
     return td
 
 
+def get_database_options(options):
+    out = {"type": "sqlite3", "file": None}
+    out.update(options)
+    if not isinstance(out["type"], str):
+        raise ValueError("type must be a string")
+    if not isinstance(out["file"], (str, type(None))):
+        raise ValueError("file must be a string")
+    return out
+
+
 class ConfigLoader:
     def __init__(self, config):
         self.config = config
@@ -188,6 +198,7 @@ class ConfigLoader:
         value_transforms = {
             "shutdown_kill_grace": get_time_limit,
             "environment": lambda x: utils.validate_environment_dict(copy.deepcopy(x)),
+            "database": get_database_options,
         }
         self.populate_object(
             self.config, "Config", config, valid_values, value_transforms
diff --git a/dsari/database.py b/dsari/database.py
index 4773ae9..4150254 100644
--- a/dsari/database.py
+++ b/dsari/database.py
@@ -489,7 +489,7 @@ class SQLite3Database(BaseSQLDatabase):
         if config.database["file"] is None:
             config.database["file"] = os.path.join(config.data_dir, "dsari.sqlite3")
         db_dir = os.path.dirname(config.database["file"])
-        if not os.path.exists(db_dir):
+        if db_dir and not os.path.exists(db_dir):
             os.makedirs(db_dir)
         self.config = config
         self.db_conn = sqlite3.connect(config.database["file"])
-- 
2.43.0


From dc79158deff49eaf2e479472cf519a9c48921ad8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:14 +0000
Subject: [PATCH 18/47] fix: honour a zero in hashed ranges and refuse
 backwards ones

---
 dsari/croniter_hash.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/dsari/croniter_hash.py b/dsari/croniter_hash.py
index a4ea118..fae7dd9 100644
--- a/dsari/croniter_hash.py
+++ b/dsari/croniter_hash.py
@@ -30,10 +30,14 @@ class croniter_hash(croniter.croniter):
         return super(croniter_hash, self).__init__(expr_format, *args, **kwargs)
 
     def _hash_do(self, id, position, range_end=None, range_begin=None, hash_type="H"):
-        if not range_end:
+        if range_end is None:
             range_end = self.RANGES[position][1]
-        if not range_begin:
+        if range_begin is None:
             range_begin = self.RANGES[position][0]
+        if range_end < range_begin:
+            raise croniter.CroniterBadCronError(
+                "Range end must not be before range begin"
+            )
         if hash_type == "R":
             crc = random.randint(0, 0xFFFFFFFF)
         else:
-- 
2.43.0


From 7f550e4ec675df8f320507436fd5316542a212a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:25 +0000
Subject: [PATCH 19/47] fix: keep the offset of a hashed step below the step

---
 dsari/croniter_hash.py | 30 +++++++++++++++++++++++-------
 1 file changed, 23 insertions(+), 7 deletions(-)

diff --git a/dsari/croniter_hash.py b/dsari/croniter_hash.py
index fae7dd9..9404031 100644
--- a/dsari/croniter_hash.py
+++ b/dsari/croniter_hash.py
@@ -50,6 +50,22 @@ class croniter_hash(croniter.croniter):
             crc = binascii.crc32(id_bytes) & 0xFFFFFFFF
         return ((crc >> position) % (range_end - range_begin + 1)) + range_begin
 
+    def _hash_step(self, id, position, range_end, range_begin, step, hash_type):
+        if step == 0:
+            raise croniter.CroniterBadCronError("Step must not be zero")
+        if range_end < range_begin:
+            raise croniter.CroniterBadCronError(
+                "Range end must not be before range begin"
+            )
+        # The offset must be less than the step, or the first value of the
+        # range is lost
+        offset_end = min(range_begin + step - 1, range_end)
+        return "{}-{}/{}".format(
+            self._hash_do(id, position, offset_end, range_begin, hash_type),
+            range_end,
+            step,
+        )
+
     def _hash_expand(self, expr_format, id):
         if expr_format == "@midnight":
             expr_format = "H H(0-2) * * * H"
@@ -78,11 +94,8 @@ class croniter_hash(croniter.croniter):
         # Example: H(30-59)/10 -> 34-59/10 (i.e. 34,44,54)
         m = re.match(r"^(H|R)\((\d+)-(\d+)\)\/(\d+)$", item)
         if m:
-            return "{}-{}/{}".format(
-                self._hash_do(id, idx, int(m.group(4)), hash_type=m.group(1))
-                + int(m.group(2)),
-                int(m.group(3)),
-                int(m.group(4)),
+            return self._hash_step(
+                id, idx, int(m.group(3)), int(m.group(2)), int(m.group(4)), m.group(1)
             )
 
         # Example: H(0-29) -> 12
@@ -97,10 +110,13 @@ class croniter_hash(croniter.croniter):
         # Example: H/15 -> 7-59/15 (i.e. 7,22,37,52)
         m = re.match(r"^(H|R)\/(\d+)$", item)
         if m:
-            return "{}-{}/{}".format(
-                self._hash_do(id, idx, int(m.group(2)), hash_type=m.group(1)),
+            return self._hash_step(
+                id,
+                idx,
                 self.RANGES[idx][1],
+                self.RANGES[idx][0],
                 int(m.group(2)),
+                m.group(1),
             )
 
         # Everything else
-- 
2.43.0


From e48be599cb2fdd1d58ff3156929740a7bd6b8d74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:05 +0000
Subject: [PATCH 20/47] fix: schedule no runs in the past while the clock shows
 an hour for the second time

---
 dsari/utils.py | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/dsari/utils.py b/dsari/utils.py
index 13023fc..159b5a2 100644
--- a/dsari/utils.py
+++ b/dsari/utils.py
@@ -98,6 +98,17 @@ def dtnow(tz=None):
     return dtlocalize(datetime.datetime.now(), tz)
 
 
+def dt_add(dt, td):
+    """Add elapsed time to a datetime
+
+    Unlike plain addition, which is done by wall clock, the result is right
+    around changes of the time zone's offset.
+    """
+    if dt.tzinfo is None:
+        return dt + td
+    return (dt.astimezone(datetime.timezone.utc) + td).astimezone(dt.tzinfo)
+
+
 def validate_environment_dict(env_in):
     env_out = {}
     for k in env_in:
@@ -131,19 +142,16 @@ def get_next_schedule_time(schedule, job_name, start_time=None):
         )
         t = dateutil_rrule.rrulestr(schedule, dtstart=hashed_epoch).after(start_time)
         if t is not None:
-            t = t + subsecond_offset
+            t = dt_add(t, subsecond_offset)
         return t
     if isinstance(croniter_hash, ImportError):
         raise ImportError("croniter not available, manual triggers only")
     if len(schedule.split(" ")) == 5:
         schedule = schedule + " H"
-    t = (
-        croniter_hash.croniter_hash(
-            schedule, start_time=start_time, hash_id=job_name
-        ).get_next(datetime.datetime)
-        + subsecond_offset
-    )
-    return t
+    t = croniter_hash.croniter_hash(
+        schedule, start_time=start_time, hash_id=job_name
+    ).get_next(datetime.datetime)
+    return dt_add(t, subsecond_offset)
 
 
 def json_pretty_print(v):
-- 
2.43.0


From a09fc8514982a62945af890f15be6df8f70e1fac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:05 +0000
Subject: [PATCH 21/47] fix: keep the part of a second of a job's schedule
 below a second

---
 dsari/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dsari/utils.py b/dsari/utils.py
index 159b5a2..c6a0d95 100644
--- a/dsari/utils.py
+++ b/dsari/utils.py
@@ -133,7 +133,8 @@ def get_next_schedule_time(schedule, job_name, start_time=None):
     if start_time is None:
         start_time = datetime.datetime.now()
     crc = binascii.crc32(job_name.encode("utf-8")) & 0xFFFFFFFF
-    subsecond_offset = seconds_to_td(float(crc) / float(0xFFFFFFFF))
+    # Always less than a second, or the following second would be skipped
+    subsecond_offset = datetime.timedelta(microseconds=(crc * 1000000) // (1 << 32))
     if schedule.upper().startswith("RRULE:"):
         if isinstance(dateutil_rrule, ImportError):
             raise ImportError("dateutil not available, manual triggers only")
-- 
2.43.0


From e930f5f0ff8052571313c3d4e954475709e6b3b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:05 +0000
Subject: [PATCH 22/47] fix: allow any white space between the fields of a
 schedule

---
 dsari/croniter_hash.py | 2 +-
 dsari/utils.py         | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/dsari/croniter_hash.py b/dsari/croniter_hash.py
index 9404031..cf4448a 100644
--- a/dsari/croniter_hash.py
+++ b/dsari/croniter_hash.py
@@ -81,7 +81,7 @@ class croniter_hash(croniter.croniter):
             expr_format = "H H H H * H"
 
         expr_expanded = []
-        for item in expr_format.split(" "):
+        for item in expr_format.split():
             idx = len(expr_expanded)
             expr_expanded.append(self._hash_expand_item(item, id, idx))
         return " ".join(expr_expanded)
diff --git a/dsari/utils.py b/dsari/utils.py
index c6a0d95..02caf88 100644
--- a/dsari/utils.py
+++ b/dsari/utils.py
@@ -147,7 +147,7 @@ def get_next_schedule_time(schedule, job_name, start_time=None):
         return t
     if isinstance(croniter_hash, ImportError):
         raise ImportError("croniter not available, manual triggers only")
-    if len(schedule.split(" ")) == 5:
+    if len(schedule.split()) == 5:
         schedule = schedule + " H"
     t = croniter_hash.croniter_hash(
         schedule, start_time=start_time, hash_id=job_name
-- 
2.43.0


From 6c802a577d31dc4a60caf4dba74c42d8f8017f4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:13 +0000
Subject: [PATCH 23/47] fix: keep recurrence rules at the same wall clock time
 and off the past when clocks change

---
 dsari/utils.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/dsari/utils.py b/dsari/utils.py
index 02caf88..9ce5093 100644
--- a/dsari/utils.py
+++ b/dsari/utils.py
@@ -138,11 +138,20 @@ def get_next_schedule_time(schedule, job_name, start_time=None):
     if schedule.upper().startswith("RRULE:"):
         if isinstance(dateutil_rrule, ImportError):
             raise ImportError("dateutil not available, manual triggers only")
-        hashed_epoch = start_time - seconds_to_td(
-            ((dt_to_epoch(start_time) - crc) % 86400)
+        # Recurrence is by wall clock, so hash within the wall clock's day
+        wall_time = start_time.replace(tzinfo=None)
+        hashed_epoch = start_time - (
+            (wall_time - datetime.datetime(1970, 1, 1) - seconds_to_td(crc))
+            % datetime.timedelta(days=1)
         )
         t = dateutil_rrule.rrulestr(schedule, dtstart=hashed_epoch).after(start_time)
         if t is not None:
+            if t.tzinfo is not None:
+                # Not a time the clock skips, nor the first pass of a time it
+                # repeats if that has passed
+                t = dateutil_tz.resolve_imaginary(t)
+                if dt_to_epoch(t) <= dt_to_epoch(start_time):
+                    t = t.replace(fold=1)
             t = dt_add(t, subsecond_offset)
         return t
     if isinstance(croniter_hash, ImportError):
-- 
2.43.0


From 04d63775db66e2a568f807dac5e0494408b7bdc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:15 +0000
Subject: [PATCH 24/47] fix: allow recurrence rules to end at a local time as
 documented, and in UTC

---
 dsari/utils.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/dsari/utils.py b/dsari/utils.py
index 9ce5093..ea7e859 100644
--- a/dsari/utils.py
+++ b/dsari/utils.py
@@ -10,6 +10,7 @@ import datetime
 import gzip
 import json
 import os
+import re
 
 try:
     import dateutil.rrule as dateutil_rrule
@@ -131,7 +132,7 @@ def validate_environment_dict(env_in):
 
 def get_next_schedule_time(schedule, job_name, start_time=None):
     if start_time is None:
-        start_time = datetime.datetime.now()
+        start_time = dtnow()
     crc = binascii.crc32(job_name.encode("utf-8")) & 0xFFFFFFFF
     # Always less than a second, or the following second would be skipped
     subsecond_offset = datetime.timedelta(microseconds=(crc * 1000000) // (1 << 32))
@@ -144,7 +145,17 @@ def get_next_schedule_time(schedule, job_name, start_time=None):
             (wall_time - datetime.datetime(1970, 1, 1) - seconds_to_td(crc))
             % datetime.timedelta(days=1)
         )
-        t = dateutil_rrule.rrulestr(schedule, dtstart=hashed_epoch).after(start_time)
+        if re.search("UNTIL=[0-9T]+($|[^0-9TZ])", schedule.upper()):
+            # An end in local time cannot be compared to times of a time zone
+            t = dateutil_rrule.rrulestr(
+                schedule, dtstart=hashed_epoch.replace(tzinfo=None)
+            ).after(wall_time)
+            if t is not None:
+                t = t.replace(tzinfo=start_time.tzinfo)
+        else:
+            t = dateutil_rrule.rrulestr(schedule, dtstart=hashed_epoch).after(
+                start_time
+            )
         if t is not None:
             if t.tzinfo is not None:
                 # Not a time the clock skips, nor the first pass of a time it
-- 
2.43.0


From 2e9ab7191cfcc84e9add10bacbcf7132865e8624 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:35 +0000
Subject: [PATCH 25/47] fix: follow changes of the local time zone's offset in
 schedules

---
 dsari/__init__.py | 2 +-
 dsari/utils.py    | 7 +++++++
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/dsari/__init__.py b/dsari/__init__.py
index be07f6a..9e1a136 100644
--- a/dsari/__init__.py
+++ b/dsari/__init__.py
@@ -30,7 +30,7 @@ class Job(object):
         self.name = name
         self.command = []
         self.schedule = None
-        self.schedule_timezone = utils.dtnow().tzinfo
+        self.schedule_timezone = utils.local_timezone()
         self.concurrency_groups = []
         self.max_execution = None
         self.max_execution_grace = utils.seconds_to_td(60.0)
diff --git a/dsari/utils.py b/dsari/utils.py
index ea7e859..2eaa35b 100644
--- a/dsari/utils.py
+++ b/dsari/utils.py
@@ -99,6 +99,13 @@ def dtnow(tz=None):
     return dtlocalize(datetime.datetime.now(), tz)
 
 
+def local_timezone():
+    """Return the local time zone, with its changes of offset if possible"""
+    if not isinstance(dateutil_tz, ImportError):
+        return dateutil_tz.tzlocal()
+    return dtnow().tzinfo
+
+
 def dt_add(dt, td):
     """Add elapsed time to a datetime
 
-- 
2.43.0


From a9940522bf5697c5163db0612511c3111e504464 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:33 +0000
Subject: [PATCH 26/47] fix: wake up in time for runs of several jobs in a time
 zone whose offset changes

---
 dsari/daemon.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dsari/daemon.py b/dsari/daemon.py
index 1b624d6..30a68c9 100644
--- a/dsari/daemon.py
+++ b/dsari/daemon.py
@@ -795,6 +795,9 @@ class Scheduler:
     def process_wakeups(self):
         self.next_wakeup = dtnow() + seconds_to_td(60.0)
         for wakeup in self.wakeups:
+            # Times in the same time zone would be compared by wall clock, which
+            # goes wrong around changes of its offset
+            wakeup = dtlocalize(wakeup)
             if wakeup < self.next_wakeup:
                 self.next_wakeup = wakeup
         if len(self.pending_signals) > 0:
-- 
2.43.0


From 72987f82ccec10eb116eeaa42c8c5d37f1df0c59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:56 +0000
Subject: [PATCH 27/47] fix: let jobs whose schedule is over not end the daemon
 or a listing

---
 dsari/daemon.py | 28 ++++++++++++++++++----------
 dsari/info.py   | 19 ++++++++++++-------
 2 files changed, 30 insertions(+), 17 deletions(-)

diff --git a/dsari/daemon.py b/dsari/daemon.py
index 30a68c9..6c449be 100644
--- a/dsari/daemon.py
+++ b/dsari/daemon.py
@@ -267,6 +267,22 @@ class Scheduler:
     def load_config(self):
         self.config = dsari.config.get_config(self.args.config_dir)
 
+    def next_schedule_time(self, job, now):
+        try:
+            return get_next_schedule_time(
+                job.schedule,
+                job.name,
+                start_time=dtlocalize(now, job.schedule_timezone),
+            )
+        except (ValueError, OverflowError) as e:
+            # For example, the last year of the schedule is over
+            self.logger.warning(
+                "[{}] Cannot determine the next run of schedule {}: {}".format(
+                    job.name, job.schedule, e
+                )
+            )
+            return None
+
     def reset_jobs(self):
         if self.shutdown:
             return
@@ -282,11 +298,7 @@ class Scheduler:
                     "[{}] No schedule defined, manual triggers only".format(job.name)
                 )
                 continue
-            t = get_next_schedule_time(
-                job.schedule,
-                job.name,
-                start_time=dtlocalize(now, job.schedule_timezone),
-            )
+            t = self.next_schedule_time(job, now)
             if t is None:
                 self.logger.debug(
                     "[{}] Schedule {} does not produce a future run, skipping".format(
@@ -768,11 +780,7 @@ class Scheduler:
         if run.concurrency_group:
             self.running_groups[run.concurrency_group].append(run)
         if run.respawn and job.schedule:
-            t = get_next_schedule_time(
-                job.schedule,
-                job.name,
-                start_time=dtlocalize(now, job.schedule_timezone),
-            )
+            t = self.next_schedule_time(job, now)
             if t is None:
                 self.logger.debug(
                     "[{}] Schedule {} does not produce a future run, skipping".format(
diff --git a/dsari/info.py b/dsari/info.py
index eeaf0a7..7ea9e68 100644
--- a/dsari/info.py
+++ b/dsari/info.py
@@ -301,6 +301,17 @@ class Info:
                     )
             print("   ".join(line_data), file=file)
 
+    def next_scheduled_run(self, job):
+        if not job.schedule:
+            return None
+        try:
+            return get_next_schedule_time(
+                job.schedule, job.name, start_time=dtnow(job.schedule_timezone)
+            )
+        except (ValueError, OverflowError):
+            # For example, the last year of the schedule is over
+            return None
+
     def dump_jobs(self, filter=None):
         jobs = {}
         for job in self.config.jobs.values():
@@ -310,13 +321,7 @@ class Info:
                 "command": job.command,
                 "command_append_run": job.command_append_run,
                 "schedule": job.schedule,
-                "next_scheduled_run": (
-                    get_next_schedule_time(
-                        job.schedule, job.name, start_time=dtnow(job.schedule_timezone)
-                    )
-                    if job.schedule
-                    else None
-                ),
+                "next_scheduled_run": self.next_scheduled_run(job),
                 "environment": job.environment,
                 "max_execution": job.max_execution,
                 "max_execution_grace": job.max_execution_grace,
-- 
2.43.0


From 339bd872c157fded74ace5a6d3adfbb5bda08b06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:23 +0000
Subject: [PATCH 28/47] fix: refuse recurrence rules with a non-positive
 INTERVAL

---
 dsari/utils.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dsari/utils.py b/dsari/utils.py
index 2eaa35b..cab1ff9 100644
--- a/dsari/utils.py
+++ b/dsari/utils.py
@@ -146,6 +146,10 @@ def get_next_schedule_time(schedule, job_name, start_time=None):
     if schedule.upper().startswith("RRULE:"):
         if isinstance(dateutil_rrule, ImportError):
             raise ImportError("dateutil not available, manual triggers only")
+        m = re.search(r"INTERVAL=\s*([-+]?[0-9]+)", schedule.upper())
+        if m and int(m.group(1)) < 1:
+            # Would be evaluated forever
+            raise ValueError("INTERVAL must be positive")
         # Recurrence is by wall clock, so hash within the wall clock's day
         wall_time = start_time.replace(tzinfo=None)
         hashed_epoch = start_time - (
-- 
2.43.0


From 4f94a27607d0627c847b35a633b119a01f0acc82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:44 +0000
Subject: [PATCH 29/47] fix: reload the exporter's configuration between
 requests and keep it if a reload fails

---
 dsari/prometheus_exporter.py | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/dsari/prometheus_exporter.py b/dsari/prometheus_exporter.py
index 3bc4504..2e38624 100644
--- a/dsari/prometheus_exporter.py
+++ b/dsari/prometheus_exporter.py
@@ -120,6 +120,7 @@ def entry(values, type="gauge", help=None):
 class Prometheus:
     def __init__(self, args):
         self.args = args
+        self.reload_requested = False
         self.load_config()
         self.db = dsari.database.get_database(self.config)
 
@@ -341,7 +342,20 @@ class Prometheus:
 
         return metrics
 
+    def reload_config(self):
+        self.reload_requested = False
+        try:
+            self.load_config()
+        except (dsari.config.ConfigError, OSError) as e:
+            logging.getLogger().error(
+                "Cannot load configuration, keeping the current one: {}".format(e)
+            )
+
     def get_metrics(self):
+        # Not in the signal handler, which may run while metrics are collected
+        if self.reload_requested:
+            self.reload_config()
+
         exporter_start = dtnow()
         metrics = {}
 
@@ -396,7 +410,7 @@ class PrometheusHandler:
     def signal_handler(self, signum, frame):
         if signum == signal.SIGHUP:
             self.logger.info("SIGHUP received, reloading")
-            self.prom.load_config()
+            self.prom.reload_requested = True
 
     def __call__(self, environ, start_response):
         self.environ = environ
-- 
2.43.0


From c0b58350e87f84310d304c08763fccad77d742c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:11 +0000
Subject: [PATCH 30/47] fix: make template_dir work

---
 dsari/render.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/dsari/render.py b/dsari/render.py
index 79727f7..6433649 100644
--- a/dsari/render.py
+++ b/dsari/render.py
@@ -94,8 +94,10 @@ class Renderer:
 
         if self.config.template_dir:
             loader = jinja2.ChoiceLoader(
-                jinja2.FileSystemLoader(self.config.template_dir),
-                jinja2.PackageLoader("dsari"),
+                [
+                    jinja2.FileSystemLoader(self.config.template_dir),
+                    jinja2.PackageLoader("dsari"),
+                ]
             )
         else:
             loader = jinja2.PackageLoader("dsari")
-- 
2.43.0


From 5b9e4deab086c80f73964112cd584c0999317a76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:11 +0000
Subject: [PATCH 31/47] fix: allow templates named *.jinja2 without another
 suffix

---
 dsari/render.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dsari/render.py b/dsari/render.py
index 6433649..2b67b9d 100644
--- a/dsari/render.py
+++ b/dsari/render.py
@@ -31,7 +31,7 @@ def guess_autoescape(template_name):
     if template_name is None or "." not in template_name:
         return False
     (base, ext) = template_name.rsplit(".", 1)
-    if ext == "jinja2":
+    if ext == "jinja2" and "." in base:
         (base, ext) = base.rsplit(".", 1)
     return ext in ("html", "htm", "xml")
 
-- 
2.43.0


From 65b84ed180a3b6fe66d498902e90825075be4d2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:11 +0000
Subject: [PATCH 32/47] fix: show output not longer than the report limits
 together as a whole

---
 dsari/render.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/dsari/render.py b/dsari/render.py
index 2b67b9d..948368f 100644
--- a/dsari/render.py
+++ b/dsari/render.py
@@ -169,12 +169,8 @@ class Renderer:
         limit_combined = limit_start + limit_end
         if (
             (raw_output is not None)
-            and (limit_start > 0 or limit_end > 0)
-            and (
-                raw_len > limit_combined
-                or (raw_len > limit_start and limit_start > 0)
-                or (raw_len > limit_end and limit_end > 0)
-            )
+            and limit_combined > 0
+            and raw_len > limit_combined
         ):
             run.output = ""
             if limit_start > 0:
-- 
2.43.0


From ee511a8d6a78ed2914af0101c2db551e685d921b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:05 +0000
Subject: [PATCH 33/47] fix: read run output which is not valid UTF-8

---
 dsari/utils.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dsari/utils.py b/dsari/utils.py
index cab1ff9..c23c7ef 100644
--- a/dsari/utils.py
+++ b/dsari/utils.py
@@ -193,14 +193,14 @@ def json_pretty_print(v):
 def read_output(filename):
     if os.path.isfile(filename):
         with open(filename, "rb") as f:
-            return f.read().decode("utf-8")
+            return f.read().decode("utf-8", "replace")
     elif os.path.isfile("{}.gz".format(filename)):
         with gzip.open("{}.gz".format(filename), "rb") as f:
-            return f.read().decode("utf-8")
+            return f.read().decode("utf-8", "replace")
     elif (not isinstance(lzma, ImportError)) and os.path.isfile(
         "{}.xz".format(filename)
     ):
         with open("{}.xz".format(filename), "rb") as f:
-            return lzma.LZMADecompressor().decompress(f.read()).decode("utf-8")
+            return lzma.LZMADecompressor().decompress(f.read()).decode("utf-8", "replace")
     else:
         return None
-- 
2.43.0


From dc8be97e97634b8f40cbabe970ddad8af2cd1f14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:05 +0000
Subject: [PATCH 34/47] fix: read all streams of xz-compressed run output

---
 dsari/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dsari/utils.py b/dsari/utils.py
index c23c7ef..e917422 100644
--- a/dsari/utils.py
+++ b/dsari/utils.py
@@ -200,7 +200,7 @@ def read_output(filename):
     elif (not isinstance(lzma, ImportError)) and os.path.isfile(
         "{}.xz".format(filename)
     ):
-        with open("{}.xz".format(filename), "rb") as f:
-            return lzma.LZMADecompressor().decompress(f.read()).decode("utf-8", "replace")
+        with lzma.open("{}.xz".format(filename), "rb") as f:
+            return f.read().decode("utf-8", "replace")
     else:
         return None
-- 
2.43.0


From d4d6d8a7b092b7fb62f0ce0e72f0a011388e3f6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:05 +0000
Subject: [PATCH 35/47] fix: print nothing for runs without output

---
 dsari/info.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dsari/info.py b/dsari/info.py
index 7ea9e68..75b7e3c 100644
--- a/dsari/info.py
+++ b/dsari/info.py
@@ -548,8 +548,10 @@ class Info:
         fn = os.path.join(
             self.config.data_dir, "runs", run.job.name, run.id, "output.txt"
         )
+        output = dsari.utils.read_output(fn)
         with AutoPager() as pager:
-            pager.write(dsari.utils.read_output(fn))
+            if output is not None:
+                pager.write(output)
 
     def cmd_tail_run_output(self):
         while True:
-- 
2.43.0


From 91598275e2cce93242a8067ce9a5736d4620917d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:05 +0000
Subject: [PATCH 36/47] fix: show nothing for runs without output in reports

---
 dsari/render.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dsari/render.py b/dsari/render.py
index 948368f..2a2c5ab 100644
--- a/dsari/render.py
+++ b/dsari/render.py
@@ -179,7 +179,7 @@ class Renderer:
             if limit_end > 0:
                 run.output += raw_output[(0 - limit_end) :]
         else:
-            run.output = raw_output
+            run.output = raw_output or ""
         self.logger.info("Writing {}".format(run_html_filename))
         context = {"run": run}
         write_html_file(run_html_filename, self.run_template.render(context))
-- 
2.43.0


From 6583bd7e13ffc83ad05492b2b2703c4e39e7341b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:21 +0000
Subject: [PATCH 37/47] fix: show the latest runs of jobs in the index
 whichever order they were recorded in

---
 dsari/render.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dsari/render.py b/dsari/render.py
index 2a2c5ab..58cbf8a 100644
--- a/dsari/render.py
+++ b/dsari/render.py
@@ -138,7 +138,7 @@ class Renderer:
     def render_runs(self):
         self.run_template = self.templates.get_template("run.html")
         runs = self.db.get_runs(job_names=[job.name for job in self.jobs])
-        for run in runs:
+        for run in sorted(runs, key=lambda run: run.stop_time):
             self.render_run(run)
 
     def render_run(self, run):
-- 
2.43.0


From cfd780d894abd036ef2926d2ef660c3fa52cae3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:18 +0000
Subject: [PATCH 38/47] fix: include the time zones of jobs in a dumped
 configuration

---
 dsari/__init__.py | 1 +
 dsari/config.py   | 1 +
 dsari/info.py     | 1 +
 3 files changed, 3 insertions(+)

diff --git a/dsari/__init__.py b/dsari/__init__.py
index 9e1a136..6b521b7 100644
--- a/dsari/__init__.py
+++ b/dsari/__init__.py
@@ -31,6 +31,7 @@ class Job(object):
         self.command = []
         self.schedule = None
         self.schedule_timezone = utils.local_timezone()
+        self.schedule_timezone_name = None
         self.concurrency_groups = []
         self.max_execution = None
         self.max_execution_grace = utils.seconds_to_td(60.0)
diff --git a/dsari/config.py b/dsari/config.py
index e168c8a..9c311f0 100644
--- a/dsari/config.py
+++ b/dsari/config.py
@@ -308,6 +308,7 @@ class ConfigLoader:
         self.populate_object(
             job, "Job {}".format(job_name), job_dict, valid_values, value_transforms
         )
+        job.schedule_timezone_name = job_dict.get("schedule_timezone")
         if job.schedule is not None:
             try:
                 utils.get_next_schedule_time(job.schedule, job.name)
diff --git a/dsari/info.py b/dsari/info.py
index 75b7e3c..1cfa895 100644
--- a/dsari/info.py
+++ b/dsari/info.py
@@ -321,6 +321,7 @@ class Info:
                 "command": job.command,
                 "command_append_run": job.command_append_run,
                 "schedule": job.schedule,
+                "schedule_timezone": job.schedule_timezone_name,
                 "next_scheduled_run": self.next_scheduled_run(job),
                 "environment": job.environment,
                 "max_execution": job.max_execution,
-- 
2.43.0


From affd2cda443b6cb58c87b6b608d7e9fa92353a0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:18 +0000
Subject: [PATCH 39/47] fix: leave options which are not set out of a dumped
 configuration

---
 dsari/info.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/dsari/info.py b/dsari/info.py
index 1cfa895..9bd2e4d 100644
--- a/dsari/info.py
+++ b/dsari/info.py
@@ -371,6 +371,12 @@ class Info:
                 config["concurrency_groups"][concurrency_group.name] = {
                     "max": concurrency_group.max
                 }
+            # Options which are not set cannot be loaded
+            config = {k: v for k, v in config.items() if v is not None}
+            for job_name, job in config["jobs"].items():
+                config["jobs"][job_name] = {
+                    k: v for k, v in job.items() if v is not None
+                }
         with AutoPager() as pager:
             if self.args.format == "yaml":
                 print(yaml.safe_dump(config), file=pager, end="")
-- 
2.43.0


From e0c22879aa8bfe6778f34bb611fa396ebe3b14d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:30 +0000
Subject: [PATCH 40/47] fix: list runs which finish while they are being listed

---
 dsari/info.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/dsari/info.py b/dsari/info.py
index 9bd2e4d..e685dbe 100644
--- a/dsari/info.py
+++ b/dsari/info.py
@@ -432,9 +432,16 @@ class Info:
     def cmd_list_runs(self):
         job_names = self.args.job
         run_ids = self.args.run
+        # Running runs are queried first, a run which finishes in between is
+        # then among the finished ones.
+        runs_running = self.db.get_runs(
+            job_names=job_names, run_ids=run_ids, runs_running=True
+        )
         runs = self.db.get_runs(
             job_names=job_names, run_ids=run_ids, runs_running=False
-        ) + self.db.get_runs(job_names=job_names, run_ids=run_ids, runs_running=True)
+        )
+        finished = set(run.id for run in runs)
+        runs += [run for run in runs_running if run.id not in finished]
         if self.args.format in ("json", "yaml"):
             out = {}
             for run in runs:
-- 
2.43.0


From 133f2b7300cf4cb2a286961c888e4a5dc3412be7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:30 +0000
Subject: [PATCH 41/47] fix: find the output of a run which finishes while it
 is looked up

---
 dsari/info.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/dsari/info.py b/dsari/info.py
index e685dbe..99868dc 100644
--- a/dsari/info.py
+++ b/dsari/info.py
@@ -553,9 +553,10 @@ class Info:
 
     def cmd_get_run_output(self):
         run_id = self.args.run
-        runs = self.db.get_runs(run_ids=[run_id])
+        # A run which is not running any more has finished
+        runs = self.db.get_runs(run_ids=[run_id], runs_running=True)
         if len(runs) == 0:
-            runs = self.db.get_runs(run_ids=[run_id], runs_running=True)
+            runs = self.db.get_runs(run_ids=[run_id])
             if len(runs) == 0:
                 self.args.parser.error("Cannot find run ID {}".format(run_id))
         run = runs[0]
-- 
2.43.0


From 976814fcc6fc2ea6667fc6825bae8bed50781153 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:28 +0000
Subject: [PATCH 42/47] fix: complete reports after an interrupted rendering

Pages were written in place, so an interrupted rendering could leave an
incomplete run page which was never written again. The job pages and the
index were written after the run pages, so they stayed out of date if the
rendering was interrupted in between.
---
 dsari/render.py | 37 +++++++++++++++++++++++++++----------
 1 file changed, 27 insertions(+), 10 deletions(-)

diff --git a/dsari/render.py b/dsari/render.py
index 58cbf8a..0990b71 100644
--- a/dsari/render.py
+++ b/dsari/render.py
@@ -66,12 +66,21 @@ def parse_args():
 
 
 def write_html_file(filename, content):
-    if filename.endswith(".gz"):
-        with gzip.open(filename, "wb") as f:
-            f.write(content.encode("utf-8"))
-    else:
-        with open(filename, "wb") as f:
-            f.write(content.encode("utf-8"))
+    # An interrupted write must not leave an incomplete file, as existing
+    # run pages are not written again
+    tmp_filename = "{}.{}.tmp".format(filename, os.getpid())
+    try:
+        if filename.endswith(".gz"):
+            with gzip.open(tmp_filename, "wb") as f:
+                f.write(content.encode("utf-8"))
+        else:
+            with open(tmp_filename, "wb") as f:
+                f.write(content.encode("utf-8"))
+        os.replace(tmp_filename, filename)
+    except BaseException:
+        if os.path.exists(tmp_filename):
+            os.remove(tmp_filename)
+        raise
 
 
 class Renderer:
@@ -129,11 +138,16 @@ class Renderer:
             job.last_successful_run = None
             self.job_runs[job.name] = []
         self.runs = []
+        self.run_pages = []
         self.jobs_written = []
 
         self.render_runs()
         self.render_jobs()
         self.render_index()
+        # Jobs and the index are only written if there are runs without a page,
+        # so the run pages come last in case rendering is interrupted
+        for run, run_html_filename in self.run_pages:
+            self.render_run_page(run, run_html_filename)
 
     def render_runs(self):
         self.run_template = self.templates.get_template("run.html")
@@ -156,6 +170,12 @@ class Renderer:
         if os.path.isfile(run_html_filename):
             if not self.args.regenerate:
                 return
+        if job not in self.jobs_written:
+            self.jobs_written.append(job)
+        self.run_pages.append((run, run_html_filename))
+
+    def render_run_page(self, run, run_html_filename):
+        job = run.job
         if not os.path.exists(
             os.path.join(self.config.data_dir, "html", job.name, run.id)
         ):
@@ -183,8 +203,6 @@ class Renderer:
         self.logger.info("Writing {}".format(run_html_filename))
         context = {"run": run}
         write_html_file(run_html_filename, self.run_template.render(context))
-        if job not in self.jobs_written:
-            self.jobs_written.append(job)
 
     def render_jobs(self):
         self.job_template = self.templates.get_template("job.html")
@@ -218,8 +236,7 @@ class Renderer:
         css_filename = os.path.join(base_dir, "darkly.min.css")
         if not os.path.exists(css_filename):
             css_template = self.templates.get_template("darkly.min.css")
-            with open(css_filename, "wb") as f:
-                f.write(css_template.render({}).encode("utf-8"))
+            write_html_file(css_filename, css_template.render({}))
         self.index_template = self.templates.get_template("index.html")
         if (len(self.jobs_written) > 0) or self.args.regenerate:
             context = {
-- 
2.43.0


From 435f2266e245fe7ae066004b94f8bd82563c8cea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:05:36 +0000
Subject: [PATCH 43/47] fix: repeated shutdown requests do not extend the grace
 time

---
 dsari/daemon.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/dsari/daemon.py b/dsari/daemon.py
index 6c449be..4f0f863 100644
--- a/dsari/daemon.py
+++ b/dsari/daemon.py
@@ -153,8 +153,10 @@ class Scheduler:
         self.logger.info("Scheduler running")
 
     def begin_shutdown(self):
+        if not self.shutdown:
+            # A repeated request must not extend the grace time
+            self.shutdown_begin = dtnow()
         self.shutdown = True
-        self.shutdown_begin = dtnow()
         self.scheduled_runs = []
         for run in self.running_runs:
             run.respawn = False
@@ -171,7 +173,7 @@ class Scheduler:
                 )
                 os.kill(run.pid, signal.SIGTERM)
                 run.term_sent = True
-                run.term_time = self.shutdown_begin
+                run.term_time = dtnow()
         elif len(self.running_runs) > 0:
             self.logger.info("Shutdown will proceed after runs have completed")
 
-- 
2.43.0


From 41cac192f9797b709b2e1d8848d7efca186e2cd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:05:38 +0000
Subject: [PATCH 44/47] fix: no SIGKILL without SIGTERM after a reload during
 the shutdown

---
 dsari/daemon.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/dsari/daemon.py b/dsari/daemon.py
index 4f0f863..eab3c05 100644
--- a/dsari/daemon.py
+++ b/dsari/daemon.py
@@ -182,11 +182,17 @@ class Scheduler:
             return
         if not self.config.shutdown_kill_grace:
             return
-        if dtnow() < (self.shutdown_begin + self.config.shutdown_kill_grace):
-            self.wakeups.append(self.shutdown_begin + self.config.shutdown_kill_grace)
-            return
+        now = dtnow()
         for run in self.running_runs:
-            if run.kill_sent:
+            # Not before SIGTERM, which only a request after a reload may bring
+            if run.kill_sent or not run.term_sent:
+                continue
+            kill_time = (
+                max(self.shutdown_begin, run.term_time)
+                + self.config.shutdown_kill_grace
+            )
+            if now < kill_time:
+                self.wakeups.append(kill_time)
                 continue
             job = run.job
             self.logger.info(
-- 
2.43.0


From 979fff0538cf52d5860ba62997b50726d5ceb694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:16:01 +0000
Subject: [PATCH 45/47] fix: links of the report index to jobs with a colon or
 leading space in the name

---
 dsari/templates/index.html | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dsari/templates/index.html b/dsari/templates/index.html
index 214902a..c8a81ed 100644
--- a/dsari/templates/index.html
+++ b/dsari/templates/index.html
@@ -21,7 +21,7 @@
 </tr>
 {% for run in failed_runs %}
 <tr{% if run.exit_code != 0 %} class="danger"{% endif %}>
-    <td><a href="{{ run.job.name }}/{{ run.id }}/">{{ strip_ms(run.stop_time) }}</a></td>
+    <td><a href="./{{ run.job.name }}/{{ run.id }}/">{{ strip_ms(run.stop_time) }}</a></td>
     <td>{{ run.job.name }}</td>
     <td>{{ strip_ms(run.stop_time - run.start_time) }}</td>
     <td>{{ run.exit_code }}</td>
@@ -38,7 +38,7 @@
 </tr>
 {% for run in runs %}
 <tr{% if run.exit_code != 0 %} class="danger"{% endif %}>
-    <td><a href="{{ run.job.name }}/{{ run.id }}/">{{ strip_ms(run.stop_time) }}</a></td>
+    <td><a href="./{{ run.job.name }}/{{ run.id }}/">{{ strip_ms(run.stop_time) }}</a></td>
     <td>{{ run.job.name }}</td>
     <td>{{ strip_ms(run.stop_time - run.start_time) }}</td>
     <td>{{ run.exit_code }}</td>
@@ -55,7 +55,7 @@
 </tr>
 {% for job in jobs %}
 <tr{% if job.last_run.start_time != job.last_successful_run.start_time %} class="danger"{% endif %}>
-    <td><a href="{{ job.name }}/">{{ job.name }}</a></td>
+    <td><a href="./{{ job.name }}/">{{ job.name }}</a></td>
     <td>{{ strip_ms(job.last_run.start_time) }}</td>
     <td>{% if job.last_run.start_time %}{{ strip_ms(job.last_run.stop_time - job.last_run.start_time) }}{% endif %}</td>
     <td>{{ strip_ms(job.last_successful_run.start_time) }}</td>
-- 
2.43.0


From 979700a316028e51704592147cdd9d4d7fc26b4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:16:01 +0000
Subject: [PATCH 46/47] fix: a pager which cannot be started does not stop
 dsari-info

---
 dsari/info.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/dsari/info.py b/dsari/info.py
index 99868dc..c864976 100644
--- a/dsari/info.py
+++ b/dsari/info.py
@@ -97,17 +97,18 @@ class AutoPager:
         self.closed = False
         self.pager = None
         if sys.stdout.isatty():
-            pager_cmd = ["pager"]
-            if os.environ.get("PAGER"):
-                pager_cmd = shlex.split(os.environ.get("PAGER"))
             env = os.environ.copy()
             if not os.environ.get("LESS"):
                 env.update({"LESS": "-FRSXMQ"})
             try:
+                pager_cmd = ["pager"]
+                if os.environ.get("PAGER", "").strip():
+                    pager_cmd = shlex.split(os.environ.get("PAGER"))
                 self.pager = subprocess.Popen(
                     pager_cmd, stdin=subprocess.PIPE, stdout=sys.stdout, env=env
                 )
-            except FileNotFoundError:
+            except (OSError, ValueError):
+                # Not found, not executable or not a command
                 pass
 
     def write(self, line):
-- 
2.43.0


From 2da28247245c0e05436115612b02364b1e12636b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:16:01 +0000
Subject: [PATCH 47/47] fix: the shell without IPython has the variables it
 lists

---
 dsari/info.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/dsari/info.py b/dsari/info.py
index c864976..68f8af5 100644
--- a/dsari/info.py
+++ b/dsari/info.py
@@ -628,9 +628,8 @@ class Info:
             class DsariConsole(code.InteractiveConsole):
                 pass
 
-            console_vars = vars.copy().update(
-                {"__name__": "__console__", "__doc__": None}
-            )
+            console_vars = vars.copy()
+            console_vars.update({"__name__": "__console__", "__doc__": None})
             print(banner, end="")
             DsariConsole(locals=console_vars).interact()
 
-- 
2.43.0

