#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (python3 tools/props.py > properties.jsonl)."""
import json

T = "The existing tests cover only three utility functions and the cron hash expansion of a few fixed expressions; "
P = []


def p(id, title, statement, over, text, why, files, mech, observe=(), state=()):
    P.append(
        {
            "id": id,
            "title": title,
            "statement": statement,
            "quantifier": {"over": over, "text": text},
            "why_tests_cant": T + why,
            "anchors": {
                "files": ["dsari/" + f for f in files],
                "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
                "mechanism": [{"name": n, "where": "dsari/" + w} for n, w in mech],
                "observe_at": list(observe),
                "hook_needed": None,
            },
        }
    )


D = ["daemon.py"]
p("C01", "Concurrency group limits are respected and never starve a runnable job",
  "At no instant are more runs in progress in a concurrency group than its configured maximum (1 when not configured). A due run of a job with concurrency groups is held back only while every one of its groups is full, starts at the daemon's next look when one has room, and CONCURRENCY_GROUP names one of the job's own groups; a job without groups is never held back by group limits.",
  ["schedules", "histories", "configurations"], "every sequence of triggers, due times, child exits and reloads, every order in which runs and groups are considered, every group maximum",
  "the daemon's scheduling pass is not executed by any test at all, and the limit must hold for every interleaving of starts and exits.",
  D, [("process_scheduled_run group selection", "daemon.py"), ("process_next_child group release", "daemon.py"), ("reset_jobs group regeneration", "daemon.py")], ["fork", "wait4"])
p("C02", "Runs of a job overlap only when concurrent_runs is set",
  "Two runs of one job never overlap in time unless the job has concurrent_runs; a run that comes due while another run of its job is in progress waits and is executed after it finishes. With concurrent_runs a due run starts regardless of other runs of the job, and runs of different jobs never exclude each other.",
  ["schedules", "histories"], "every sequence of triggers, due times and child exits and every order in which due runs are considered",
  "overlap depends on the interleaving of triggers, schedule times and exits, none of which any test produces.",
  D, [("process_scheduled_run exclusivity test", "daemon.py")], ["fork", "wait4"])
p("C03", "No run starts early; every due run starts or is retried with bounded backoff",
  "A run never starts before its scheduled time. Every pending run whose time has come and which is not blocked is started at the daemon's next look, and a blocked one stays pending and is looked at again after a delay between 5 seconds and 5 minutes that grows with how long it has been waiting and, beyond 5 seconds, is never longer than that.",
  ["schedules", "histories", "inputs"], "every scheduled time, current time, order of consideration and length of blocking",
  "it quantifies over all times and all waiting histories; no test runs the scheduler.",
  D, [("process_scheduled_run", "daemon.py"), ("backoff", "daemon.py"), ("process_wakeups", "daemon.py")], ["fork", "sleep"])
p("C04", "A recurring schedule neither stalls nor doubles",
  "As long as the daemon is neither shutting down nor reloaded, a job with a schedule that has further times always has exactly one pending or in-progress recurring occurrence to come: starting one occurrence schedules exactly one next occurrence strictly after the start and consistent with the schedule, and a triggered run that replaces the pending occurrence of the job hands the recurrence on. A triggered run that does not replace an occurrence never adds one.",
  ["schedules", "histories"], "every sequence of occurrences, triggers, blocking, exits and every answer of the cron/RRULE library",
  "a stalled or doubled schedule shows only over a history of several occurrences and triggers.",
  D, [("respawn handling in process_scheduled_run / process_trigger_job / reset_jobs", "daemon.py")], ["fork"])
p("C05", "A trigger file is consumed once and carried out faithfully",
  "A valid trigger file of a configured job is deleted and produces exactly one run of that job, of trigger type 'file', carrying exactly the file's data, before that deletion being impossible to repeat; when both forms exist the JSON file is taken first. For a job without concurrent_runs the new run replaces the job's pending run if there is one, otherwise and with concurrent_runs it is additional; no other job's pending runs change.",
  ["inputs", "histories"], "every trigger content within the format, both file forms, every set of pending and running runs",
  "no test writes a trigger; the property is over contents and pending-run histories.",
  D + ["utils.py"], [("process_triggers / process_trigger_job", "daemon.py"), ("load_structured_file delete_during", "utils.py")], ["remove", "fork"])
p("C06", "No trigger file can stop or disturb the daemon",
  "Whatever a trigger file contains (invalid JSON or YAML, a non-mapping, unusable environment, time or time zone, values that cannot be recorded) and whatever happens to it while it is read (it disappears or cannot be opened or deleted), the daemon keeps running, starts no run from an unusable trigger, and its other pending runs are unaffected. An unusable trigger that could be read is removed so that it is not reported forever.",
  ["inputs", "fault_sequences"], "every trigger content by type and shape in each documented key, and every file-system fault at each access",
  "no test feeds the daemon any trigger, let alone malformed ones or races.",
  D + ["utils.py"], [("process_trigger_job error handling", "daemon.py")], ["daemon loop"])
p("C07", "A trigger's requested time is honoured exactly",
  "A triggered run is scheduled at the file's modification time by default, at the given epoch number, or at the given textual time interpreted in its own offset if it has one, else in schedule_timezone, else in the daemon's local zone. The same instant is what is recorded as the run's schedule time and exported as SCHEDULE_TIME.",
  ["inputs", "configurations"], "every epoch number, every wall-clock time, every UTC offset of local and named zones",
  "the time interpretation is over all times and zones; no test parses any trigger time.",
  D + ["utils.py"], [("process_trigger_job schedule_time", "daemon.py"), ("dtlocalize", "utils.py")], ["runs table", "run environment"])
p("C08", "Every finished run is recorded exactly once with its own data",
  "Each started run is listed as running before its process exists, and once the daemon has seen it exit it is listed exactly once as finished and no longer as running, with the job, run id, schedule time, start time, trigger type and data it was started with, the time it was seen to finish and its exit status. Schedule time is at most start time, and start time at most stop time; no record appears for a process that is not a run.",
  ["schedules", "histories"], "every interleaving of starts, exits in any order and unrelated children",
  "it needs the daemon loop with several children finishing in arbitrary order; no test starts one.",
  D + ["database.py"], [("process_scheduled_run / process_next_child", "daemon.py"), ("insert_running_run / insert_run", "database.py")], ["runs table", "runs_running table"])
p("C09", "Exit codes are recorded in shell format",
  "The recorded exit code of a run is its exit status (0-255) if it exited, and 128 plus the signal number if a signal ended it, whether or not it dumped core.",
  ["inputs"], "every wait status of a terminated process",
  "no test decodes a wait status; the domain is all 16-bit statuses.",
  D, [("wait_deadline", "daemon.py")], ["runs table"])
p("C10", "max_execution sends SIGTERM, then SIGKILL after the grace period, once each",
  "A run with max_execution receives no signal while it has been running for at most that long; once the daemon looks after that it receives exactly one SIGTERM, and if it is still there when the grace period since then has passed exactly one SIGKILL, never a SIGKILL without an earlier SIGTERM. Runs without max_execution and processes that have been collected are never signalled for this, and the daemon wakes up for these deadlines in time.",
  ["schedules", "inputs"], "every duration, limit, grace period and every time at which the daemon gets to look",
  "the signal sequence depends on real elapsed times and daemon latency over all values.",
  D, [("process_run_execution_time", "daemon.py")], ["kill"])
p("C11", "Shutdown starts nothing new and ends exactly when the last run has finished",
  "After SIGINT or SIGTERM no run is started, no trigger is consumed, and the daemon ends as soon as no run is in progress and not earlier, recording every run. Running processes are signalled only if shutdown_kill_runs is set: then each gets one SIGTERM, and one SIGKILL once shutdown_kill_grace has passed if that is set, and otherwise none.",
  ["schedules", "histories", "configurations"], "every moment of the shutdown request relative to starts and exits, both settings, every grace period",
  "it is over all moments of the request and all sets of running runs; no test sends a signal.",
  D, [("begin_shutdown / monitor_shutdown / loop", "daemon.py")], ["kill", "fork", "loop return"])
p("C12", "Reload applies the new configuration without losing or duplicating runs",
  "After SIGHUP the pending runs are exactly the next occurrence of each scheduled job of the new configuration, runs in progress continue and are recorded as usual, still count against their job's exclusivity and their group's (new) maximum, are held to their job's (new) max_execution, and do not bring back occurrences of the old configuration. A reload whose configuration is invalid leaves the daemon running with its previous configuration, and a reload during shutdown schedules nothing.",
  ["configurations", "histories"], "every pair of old and new job and group sets, every set of runs in progress",
  "reload is over pairs of configurations and run histories; no test reloads.",
  D + ["config.py"], [("signal_handler SIGHUP / load_config / reset_jobs", "daemon.py")], ["fork", "runs table"])
p("C13", "Signals may arrive at any point without harm",
  "Whichever point of the daemon's activity SIGHUP, SIGINT, SIGTERM, SIGQUIT or SIGUSR1 interrupts, the daemon does not fail, starts no run after a shutdown request was handled, never signals a process it has already collected, and neither loses nor duplicates a run.",
  ["schedules"], "every statement boundary of the main loop as the delivery point of each signal",
  "the delivery point is a scheduling choice that tests cannot sample meaningfully.",
  D, [("signal_handler", "daemon.py")], ["fork", "kill", "runs table"])
p("C14", "The daemon always looks again in time",
  "While idle or while runs are in progress, the daemon never waits past the earliest pending scheduled time, retry or kill deadline, and never longer than 60 seconds between looks for triggers; a SIGUSR1 during either wait makes it look within about a second. It never spins or sleeps a negative time.",
  ["schedules", "inputs"], "every set of pending deadlines and every current time",
  "over all deadlines and times; no test runs the wait.",
  D, [("process_wakeups / loop wait / wait_deadline", "daemon.py")], ["sleep"])
p("C15", "Environment precedence is trigger over job over global over automatic",
  "A run's environment contains exactly the automatic variables overridden by the global, then the job's, then the trigger's variables, all as text; nothing else of the daemon's environment except PATH reaches it.",
  ["inputs", "configurations"], "every subset of sources defining the same name, for user and automatic names, and every value",
  "no test builds a run environment; the property is over all combinations of sources.",
  D, [("run_child_executor", "daemon.py")], ["exec"])
p("C16", "The standard run environment is correct",
  "Every run sees CI, DSARI, LOGNAME and HOME (if the user is known), PATH (/usr/bin:/bin if unknown), DATA_DIR, JOB_NAME, JOB_DIR, RUN_ID, RUN_DIR, SCHEDULE_TIME, START_TIME, TRIGGER_TYPE and TRIGGER_DIR with its own values. CONCURRENCY_GROUP, JOB_GROUP and the Jenkins variables appear exactly when they apply, and PREVIOUS_*, PREVIOUS_GOOD_* and PREVIOUS_BAD_* describe the job's last, last successful and last failed finished run exactly when there is one.",
  ["inputs", "histories", "configurations"], "every run history, option combination and time value",
  "no test inspects the environment; it depends on the whole history of the job.",
  D + ["database.py"], [("run_child_executor", "daemon.py"), ("get_previous_runs", "database.py")], ["exec"])
p("C17", "A run's process is set up as documented",
  "The configured command is executed unmodified (followed by the job name and run id exactly when command_append_run is set), found through the run's PATH, in its own process group with default signal dispositions for the signals the daemon handles, standard input empty and standard output and error both appended to the run's output.txt. It starts in the run directory, or in the directory named by a configured PWD if that exists, and PWD says so.",
  ["inputs", "configurations"], "every command, option combination and PWD setting",
  "no test starts a child.",
  D, [("run_child_executor", "daemon.py")], ["exec"])
p("C18", "return_data is recorded when readable and never breaks recording",
  "If a run leaves return_data.json (taken first) or return_data.yaml in its run directory and it is valid, its content is recorded as the run's return_data; if it is missing, invalid, unreadable or holds values that cannot be recorded, the run is still recorded and the daemon continues.",
  ["inputs", "fault_sequences"], "every content by type and shape and every file-system fault",
  "no test finishes a run, with or without return data.",
  D + ["utils.py", "database.py"], [("process_next_child", "daemon.py")], ["runs table"])
p("C20", "Previous-run queries return the latest matching run of the job",
  "For every job the database reports as previous, previous good and previous bad run the one with the latest stop time among that job's finished runs, those with exit code 0, and those with another exit code, or nothing if there is none; runs of other jobs and running runs never count.",
  ["histories", "inputs"], "every history of finished runs with arbitrary times, exit codes and job names",
  "no test touches the database.",
  ["database.py"], [("get_previous_runs", "database.py")], ["get_previous_runs"])
p("C21", "A recorded run reads back as it was recorded",
  "Every run written as running or finished is read back with the same job, id, trigger type, trigger and run data and exit code, and the same instants to within a millisecond, as timezone-aware times, in any local time zone.",
  ["inputs", "configurations"], "every time, id, exit code, JSON-representable data and local offset",
  "no test writes or reads a run.",
  ["database.py"], [("insert_run / insert_running_run / _build_run_from_result", "database.py")], ["get_runs"])
p("C22", "Recording a finished run is atomic",
  "At every instant a crash may leave the database in, a started run that has been listed is listed either as running or as finished, never as both and never as neither, and runs recorded earlier are unchanged.",
  ["crash_points", "histories"], "a crash before or after every database operation of recording a run",
  "crash points are not exercised by any test.",
  ["database.py"], [("insert_run single transaction", "database.py")], ["sqlite tables"])
p("C23", "Run queries select exactly the requested runs",
  "A query returns exactly the finished (or, if asked, the running) runs with the given run ids, else of the given jobs, else all, each attached to its configured job or to a stand-in with the recorded job name when the job is no longer configured; asking for an empty set of jobs or ids returns none.",
  ["inputs", "histories"], "every set of stored runs and every filter",
  "no test queries the database.",
  ["database.py"], [("get_runs", "database.py")], ["get_runs"])
p("C24", "Starting the daemon clears only the stale running list",
  "When the daemon starts, runs still listed as running from an earlier daemon disappear from the running list and no finished run is changed or lost; opening the database any number of times, by any tool, never loses or changes a finished or running run.",
  ["histories", "crash_points"], "every content of an existing database",
  "no test opens a database twice.",
  ["database.py", "daemon.py"], [("clear_runs_running / populate_schema", "database.py")], ["sqlite tables"])
C = ["config.py"]
p("C30", "Exactly the valid names are accepted",
  "A job, job group or concurrency group name is accepted exactly if it has 1 to 64 characters, all from letters, digits, space and -_+.:@, and is neither '.' nor '..'; everything else, whatever its length, characters or type, is refused as a configuration error, so no name can lead outside its own directory.",
  ["inputs"], "every string as a name, in each of the places where names are configured",
  "the domain is all strings; no test validates a name.",
  C, [("is_valid_name", "config.py")], ["get_config"])
p("C31", "Configuration files merge in the documented order",
  "The effective configuration is the recursive merge, later over earlier, of dsari.yaml, dsari.json, then the readable *.yaml and then the *.json files of config_d in alphabetical order; mappings merge key by key at every depth, any other value is replaced whole, and no input file's values leak into another place.",
  ["inputs", "configurations"], "every combination of present files and every nesting of values",
  "the existing merge tests cover a few fixed dictionaries and no file order.",
  C + ["utils.py"], [("load_dir", "config.py"), ("dict_merge", "utils.py")], ["raw_config"])
p("C32", "Configuration values of a wrong type are refused, absent ones get the defaults",
  "Every documented option given with a value of a type it does not allow is refused as a configuration error naming it, every allowed value takes effect as given, absent options have the documented defaults and unknown options are ignored. Malformed configuration of any shape produces a configuration error and never another failure.",
  ["inputs"], "every option with a value of every JSON/YAML type",
  "no test loads a configuration.",
  C, [("populate_object", "config.py")], ["get_config"])
p("C33", "A job group equals the jobs written out one by one",
  "A job group definition behaves exactly as if each of its job_names were defined as a job with the same options plus job_group set to the group's name; jobs of a group do not share mutable state and the group's other attributes never leak. A job which is defined twice (by itself and by a group, or by two groups) is as one of the definitions says as a whole.",
  ["configurations"], "every group definition and list of names",
  "no test loads a job group.",
  C, [("build_jobs", "config.py")], ["get_config"])
p("C34", "A configuration that is accepted can be run",
  "Whatever configuration is accepted, given a usable data directory and database, the daemon can start with it, schedule its jobs and start their runs without failing: schedules that cannot be evaluated, commands that are not argument lists and unknown time zones are refused when the configuration is loaded.",
  ["configurations", "inputs"], "every schedule kind, command shape, time zone and option value that loading accepts",
  "no test loads a configuration or starts a daemon.",
  C + ["daemon.py", "utils.py"], [("build_job validation", "config.py"), ("get_next_schedule_time", "utils.py")], ["get_config", "daemon start"])
p("C35", "Environment definitions are normalised or refused",
  "An environment mapping is accepted exactly if every name is text and every value is text or a number, and then defines exactly the same names with text values, numbers in their usual decimal form; booleans, nulls, lists and mappings are refused.",
  ["inputs"], "every mapping of every value type",
  "tests cover a handful of fixed mappings.",
  C + ["utils.py"], [("validate_environment_dict", "utils.py")], ["get_config"])
p("C36", "Concurrency groups are shared by name and default to one",
  "Jobs naming the same concurrency group share one limit, a group that is not defined has maximum 1, a defined one its own maximum, and each job belongs to exactly the groups it lists.",
  ["configurations"], "every assignment of jobs to groups, defined or not, and every maximum",
  "no test loads concurrency groups.",
  C, [("build_concurrency_groups / build_job_concurrency_groups", "config.py")], ["get_config"])
S = ["croniter_hash.py", "utils.py"]
p("C40", "Hashed cron fields are deterministic and stay inside their range",
  "H in a cron field always denotes one value inside that field's valid range, H(a-b) one value from a to b inclusive, the same every time for the same job name, and R likewise a value of the same range; every value of the range is reachable.",
  ["inputs"], "every job name hash, field and range bounds",
  "tests check a few expressions for one fixed job name.",
  S, [("_hash_do / _hash_expand_item", "croniter_hash.py")], ["expanded expression"])
p("C41", "Hashed steps keep their step and their range",
  "H/s in a cron field denotes every s-th value of the field's range starting from an offset smaller than s above the range's start, and H(a-b)/s likewise inside a to b, so for every job name the steps cover the range with no gap longer than s; the @ aliases expand to their documented hashed forms.",
  ["inputs"], "every job name hash, field, step and range",
  "tests check two expressions for one fixed job name.",
  S, [("_hash_expand_item", "croniter_hash.py")], ["expanded expression"])
p("C42", "The next scheduled time is a later matching time with a fixed sub-second part",
  "The next time of a cron schedule is strictly later than the given time, equals a matching whole second plus an offset between 0 and 1 second that depends only on the job name, and a five-field expression behaves as one with H as its seconds field; asking again from an occurrence never yields it again or skips one.",
  ["inputs", "histories"], "every start time, job name hash and cron expression (through the cron library's contract)",
  "tests check one fixed instant.",
  S, [("get_next_schedule_time", "utils.py")], ["get_next_schedule_time"])
p("C43", "RRULE schedules are anchored to the job name and do not drift",
  "For an RRULE without explicit positions whose period divides a day (such as DAILY, HOURLY, MINUTELY;INTERVAL=5) the times are anchored to a second of the day given by the job name, the same whenever it is asked; the next time is strictly later than the given time, or none when the rule ends.",
  ["inputs", "histories"], "every start time and job name hash, through the recurrence library's contract",
  "tests check one fixed instant.",
  ["utils.py"], [("get_next_schedule_time", "utils.py")], ["get_next_schedule_time"])
R = ["prometheus_exporter.py"]
p("C50", "Quantiles are correctly interpolated",
  "A reported quantile q of the values of a job is the linear interpolation between the order statistics around (n-1)q: it lies between minimum and maximum, is monotone in q, and is the minimum, maximum and value itself at 0, 1 and for a single value.",
  ["inputs"], "every list of values up to the bound and every quantile in [0,1]",
  "no test computes a quantile.",
  R, [("percentile", "prometheus_exporter.py")], ["metrics"])
p("C51", "Exported metrics agree with the recorded runs",
  "For every configured job the counters equal the number of its finished, successful and failed runs (their sum being the total), the duration and latency sums and counts equal those of its runs, the last-run values are those of the run with the latest stop time, and the running metrics list exactly its runs in progress.",
  ["histories"], "every history of finished and running runs of several jobs",
  "no test exports metrics.",
  R, [("get_job_metrics / get_running_metrics", "prometheus_exporter.py")], ["metrics text"])
p("C52", "Cached metrics are never older than the cache time",
  "Metrics of finished runs are served at most job_cache_time seconds after they were collected and are collected anew after that or after a reload; running-run metrics are never cached, and are left out exactly when disabled. A reload takes effect between requests; one with an invalid configuration keeps the current one.",
  ["schedules", "inputs"], "every sequence of requests, times and reloads and every cache time",
  "no test requests metrics.",
  R, [("get_metrics", "prometheus_exporter.py")], ["metrics text"])
p("C53", "The metrics endpoint answers correctly for every path",
  "A request for exactly the configured path gets status 200 with the metrics text, any other path 404, always with the content length equal to the body's length in bytes; the text has one line per value in the exposition format with each metric's HELP and TYPE at most once.",
  ["inputs"], "every request path and query string",
  "no test sends a request.",
  R, [("PrometheusHandler.__call__", "prometheus_exporter.py"), ("build_metrics_text", "prometheus_exporter.py")], ["WSGI response"])
p("C54", "Report output truncation keeps exactly the configured ends",
  "With report_run_output_start and/or report_run_output_end set, output longer than their sum is shown as its first and last characters of those lengths around a marker, and output not longer is shown whole; with neither set it is always whole. No character is shown twice.",
  ["inputs", "configurations"], "every output length and both limits",
  "no test renders a report.",
  ["render.py"], [("render_run", "render.py")], ["run report"])
p("C55", "Report pages never contain unescaped data",
  "Run output, trigger data and every other recorded value appear HTML-escaped in the generated pages, for the built-in templates and for custom templates with html, htm or xml names, with or without a jinja2 suffix.",
  ["inputs"], "every template name and every character of the data",
  "no test renders a report.",
  ["render.py"], [("guess_autoescape / Environment(autoescape)", "render.py")], ["run report"])
p("C56", "Run output is found and readable in every stored form",
  "The output of a run is read from output.txt, else its .gz, else its .xz form, and is complete; output that is not valid UTF-8 is still readable, and a missing output yields nothing rather than a failure in any tool, also when the run finishes while its output is looked up. The output shown is that of the run asked for; a run which does not exist is refused.",
  ["inputs", "fault_sequences"], "every combination of present files and every byte sequence",
  "no test reads an output.",
  ["utils.py", "render.py", "info.py"], [("read_output", "utils.py"), ("cmd_get_run_output", "info.py")], ["run output"])
p("C57", "A dumped configuration loads back to the same configuration",
  "The configuration printed by 'config dump' is a valid configuration that loads to the same jobs, groups and options as the one it was made from; the raw form is the merged input itself. 'config check' succeeds exactly for a configuration that loads.",
  ["configurations"], "every accepted combination of options",
  "no test dumps a configuration.",
  ["info.py", "config.py"], [("cmd_dump_config / dump_jobs", "info.py")], ["config dump"])
p("C58", "Reports cover exactly the jobs and runs they should",
  "Rendering writes a page for every finished run of every configured job with render_reports, none for other jobs, does not rewrite existing run pages unless asked to regenerate, and lists runs newest first: all of the job on its page, the latest 25 runs and 10 failed ones on the index, next to each job's last and last successful run.",
  ["histories", "configurations"], "every run history and set of jobs with and without reports",
  "no test renders a report.",
  ["render.py"], [("Renderer.render*", "render.py")], ["html tree"])
p("C59", "An interrupted rendering is completed by the next one",
  "If rendering ends at any point (the process is killed, the machine stops), the next complete rendering leaves exactly the pages, with exactly the contents, an uninterrupted one would have: no incomplete or outdated page stays.",
  ["crash_points", "histories"], "every point at which the renderer can end, over earlier reports and options",
  "no test renders a report; only an interruption at a particular point leaves the wrong page, which then stays for good.",
  ["render.py"], [("write_html_file / Renderer.render*", "render.py")], ["html tree"])
p("C60", "Run listings show exactly the selected runs, finished and running",
  "A listing in any format contains every finished and every running run selected by the filters exactly once, with its own values, running ones without stop time and exit code, in start order for tables (newest first in the pretty form, without terminal codes unless on a terminal); a run finishing while the listing is made is still listed once.",
  ["histories", "inputs"], "every set of finished and running runs, filter and format",
  "no test lists runs.",
  ["info.py"], [("cmd_list_runs", "info.py")], ["listing"])
p("C61", "Job listings and followed outputs match what the daemon does",
  "A listing of jobs in any format contains exactly the selected configured jobs, each once with its own settings, and the next run of a scheduled job is the one a daemon started at that time makes, in the job's time zone. Following outputs follows exactly the output files of the asked for running runs, as soon as there is one.",
  ["inputs", "configurations", "histories"], "every time of asking, offset and change of the clocks, filter, format and set of running runs",
  "no test lists jobs or follows an output.",
  ["info.py", "utils.py"], [("cmd_list_jobs / cmd_tail_run_output", "info.py"), ("get_next_schedule_time", "utils.py")], ["listing", "exec"])
p("C62", "Every link in the reports leads to the page it names",
  "Followed as a browser does, every link of the index, of a job's page and of a run's page leads to an existing page of the same report: links naming a run to that run's page, links naming a job to that job's page, and the links upwards and to the style sheet to those files, for every valid job name.",
  ["inputs", "configurations"], "every valid job name",
  "no test follows a link; the test job names have nothing special.",
  ["render.py", "templates/index.html"], [("render_index / render_job / render_run_page", "render.py"), ("index.html", "templates/index.html")], ["render", "templates"])
p("C63", "Everything dsari-info prints reaches its reader, pager or not",
  "On a terminal the output of dsari-info goes completely and in order to one pager (PAGER, else pager), which is waited for; elsewhere, and if no pager can be started, it is printed. A pager or reader that quits or is interrupted at any point ends the output without a failure, and up to then has received everything.",
  ["inputs", "schedules", "faults"], "every PAGER and every point at which the pager or the reader stops",
  "no test runs dsari-info on a terminal.",
  ["info.py"], [("AutoPager", "info.py")], ["listing"])
p("C64", "The default directories are found in the fixed order",
  "Without --config-dir every program takes its configuration from DSARI_HOME's etc if DSARI_HOME is set, else from the first of ~/.dsari/etc, /usr/local/etc/dsari and /etc/dsari which has dsari.json, dsari.yaml or config.d, else from ~/.dsari/etc; the data directory, if not configured, is the one that belongs to it.",
  ["configurations"], "every combination of existing files, environment and option",
  "tests always name the directory.",
  ["config.py"], [("DEFAULT_CONFIG_DIR / dir_has_config / get_config", "config.py")], ["config"])
p("C65", "The interactive shell offers what it says",
  "The shell of dsari-info, with or without IPython, has the variables it lists, and they are the loaded configuration, its jobs and concurrency groups, and the configured database.",
  ["configurations"], "every configuration and history, with and without IPython",
  "no test starts the shell.",
  ["info.py"], [("cmd_shell", "info.py")], ["listing"])

for x in P:
    print(json.dumps(x))
