"""Which workloads decide which property. scale/perturb are case counts, never seconds."""
WRAP = ["-Wl,--wrap=recv,--wrap=send"]


def J(flavour, scale, tscale, repeat=1, trepeat=None, **kw):
    def f(tier):
        d = dict(flavour=flavour, scale=scale if tier == "quick" else tscale,
                 repeat=repeat if tier == "quick" else (trepeat or repeat), **kw)
        return d
    return f


def jobs(*js):
    return lambda tier: [j(tier) for j in js]


PROPS = {
    "P01": dict(harness="p01_exec.cc", jobs=jobs(
        J("tsan", 60, 1200, repeat=2, trepeat=4, scenario="mix", perturb=8),
        J("tsan", 60, 1200, scenario="cross", perturb=8),
        J("asan", 125, 2500, repeat=2, trepeat=4, scenario="mix", perturb=16),
        J("asan", 200, 4000, scenario="cross", perturb=16)),
        rule="tasks are submitted/posted in bulk and singly to every executor kind from outside threads, from the executor's own workers and from other executors' workers, with schedule perturbation at the hook points; every task's run count, running executor/thread and result is logged and reconciled; non-trivial = distinct (executor, submit mode, parameters) case",
        require='tasks_pool tasks_thread tasks_worker tasks_manual tasks_inline cross_executor_hops results_checked'.split()),
    "P02": dict(harness="p01_exec.cc", jobs=jobs(
        J("tsan", 200, 4000, repeat=2, trepeat=4, scenario="fifo", perturb=8),
        J("asan", 400, 8000, repeat=2, trepeat=4, scenario="fifo", perturb=16)),
        rule="producers tag tasks with (producer, sequence); the serial executor's run log is checked for per-producer order, mutual exclusion and a single thread; non-trivial = distinct producer/task/bulk mix",
        require='fifo_tasks fifo_local_tasks'.split()),
    "P03": dict(harness="p01_exec.cc", jobs=jobs(
        J("tsan", 125, 2500, repeat=2, trepeat=4, scenario="shutdown", perturb=8),
        J("asan", 300, 6000, repeat=2, trepeat=4, scenario="shutdown", perturb=16)),
        rule="shutdown is raced with producers, nested submissions and other shutdowns on every executor kind; every accepted task's result must complete (value or interruption), nothing may run after shutdown returned, all calls after it must be refused; non-trivial = distinct race configuration",
        require='shutdown_races_pool shutdown_races_thread shutdown_races_worker shutdown_races_manual shutdown_results_value shutdown_results_interrupted'.split()),
    "P04": dict(harness="p01_exec.cc", jobs=jobs(
        J("tsan", 200, 4000, repeat=2, trepeat=4, scenario="manual", perturb=8),
        J("asan", 400, 8000, repeat=2, trepeat=4, scenario="manual", perturb=16)),
        rule='random histories of manual-executor calls checked step by step against a queue model, plus concurrent post/loop/wait/clear with conservation accounting; non-trivial = distinct history',
        require='manual_waiters manual_timed_feeds manual_model_executed manual_waits manual_conc_posted manual_conc_cleared'.split()),
    "P05": dict(harness="p05_result.cc", jobs=jobs(
        J("tsan", 50, 1000, repeat=2, trepeat=4, scenario="result", perturb=6),
        J("asan", 100, 2000, repeat=2, trepeat=4, scenario="result", perturb=6)),
        rule='producer and consumer race on every consumption style of a result (get, wait, wait_for, co_await, resolve, chain, move); outcome tokens checked for exact single delivery; non-trivial = distinct (style, outcome, type, timing) class',
        require='consumed_get consumed_wait consumed_wait_for consumed_wait_until consumed_co_await consumed_resolve consumed_await-chain consumed_status consumed_move'.split()),
    "P06": dict(harness="p05_result.cc", jobs=jobs(
        J("tsan", 50, 1000, repeat=2, trepeat=4, scenario="shared", perturb=6),
        J("asan", 100, 2000, repeat=2, trepeat=4, scenario="shared", perturb=6)),
        rule='several consumers of copies of one shared result race with its completion and with dropping their copies; non-trivial = distinct (consumers, styles, outcome) class',
        require='shared_consumers shared_dropped_while_completing shared_made_while_completing'.split()),
    "P07": dict(harness="p05_result.cc", jobs=jobs(
        J("tsan", 200, 4000, repeat=2, trepeat=4, scenario="when", perturb=6),
        J("asan", 400, 8000, repeat=2, trepeat=4, scenario="when", perturb=6)),
        rule='when_all/when_any over random sets of results completing concurrently on several executors; returned index, order and readiness checked; non-trivial = distinct (arity, completion order, resume executor) class',
        require='when_any_rounds when_all_rounds when_any_of_one'.split()),
    "P08": dict(harness="p05_result.cc", jobs=jobs(
        J("tsan", 100, 2000, repeat=1, trepeat=4, scenario="lazy", perturb=6),
        J("asan", 200, 4000, repeat=2, trepeat=4, scenario="lazy", perturb=6)),
        rule='lazy results and generators with counted bodies/frames consumed in every way, including never and early stop; non-trivial = distinct case',
        require='lazy_rounds generator_elements lazy_resolved_again lazy_done_resolve_dropped lazy_done_await_dropped lazy_done_overwritten'.split()),
    "P09": dict(harness="p05_result.cc", jobs=jobs(
        J("tsan", 100, 2000, repeat=2, trepeat=4, scenario="resume", perturb=8),
        J("asan", 200, 4000, repeat=2, trepeat=4, scenario="resume", perturb=8)),
        rule='coroutines hop between executors while some are shut down; the executor running each segment is recorded and compared with the requested one; non-trivial = distinct hop sequence',
        require='resume_hops resume_interrupted'.split()),
    "P10": dict(harness="p10_timer.cc", parallel=6, jobs=jobs(
        J("tsan", 200, 4000, repeat=2, trepeat=4, scenario="timers", perturb=8),
        J("tsan", 200, 4000, scenario="shutdown", perturb=8),
        J("asan", 200, 4000, repeat=2, trepeat=4, scenario="timers", perturb=8),
        J("asan", 300, 6000, scenario="order", perturb=8),
        J("asan", 80, 2000, scenario="wake", perturb=8),
        J("tsan", 80, 2000, scenario="wake", perturb=8),
        J("asan", 400, 8000, repeat=2, scenario="shutdown", perturb=8)),
        rule='random one-shot/periodic/delay timers over several executors, cancelled, re-timed and shut down concurrently; execution log checked for early firing, double firing, firing after cancel, wrong executor, order and delay completion; non-trivial = distinct timer set',
        require='timers_woken periodic_stalls timers timer_executions timers_cancelled_outside delays delays_interrupted shutdown_rounds ordered_timers'.split()),
    "P11": dict(
        harness="p11_ring.cc", link=WRAP,
        jobs=jobs(J("asan", 4, 40, repeat=3, trepeat=8),
                  J("tsan", 4, 20, scenario="ring_spsc")),
        rule="random operation histories on fixed/growing rings and streams checked step by step "
             "against a queue model; socket transfers with injected short/EAGAIN results; "
             "non-trivial = history wrapped around the capacity / moved >256 bytes",
        require=["ring_histories_wrapped", "ring_histories_grown", "injected_short_send",
                 "injected_short_recv", "injected_again_recv", "spsc_items"],
    ),
    "P12": dict(harness="p12_wire.cc", jobs=jobs(
        J("asan", 20, 300, repeat=3, trepeat=8, scenario="codec_binary"),
        J("asan", 20, 300, repeat=3, trepeat=8, scenario="codec_line")),
        rule="random packet sequences encoded, cut into random fragments and decoded after each fragment next to a reference decoder, with over-limit, zero-id, random and overlong tails; non-trivial = distinct (bytes, fragmentation)",
        require="codec_packets codec_refused codec_incomplete line_packets line_refused line_incomplete".split()),
    "P13": dict(harness="p12_wire.cc", jobs=jobs(
        J("asan", 80, 600, repeat=2, trepeat=8, scenario="packet_typed"),
        J("asan", 80, 600, repeat=2, trepeat=8, scenario="packet_flags"),
        J("asan", 80, 600, repeat=2, trepeat=8, scenario="packet_hostile")),
        rule="random typed write sequences read back and compared with the values and with a reference byte image; random flag/read/write histories against a model; random contents read with every reader against a reference reader; non-trivial = distinct sequence",
        require="packet_values packet_strings packet_empty_strings packet_flag_steps packet_hostile_reads".split()),
    "P14": dict(harness="p12_wire.cc", jobs=jobs(
        J("asan", 80, 800, repeat=4, trepeat=12, scenario="rpc_roundtrip")),
        rule="random sequences of every supported rpc type with edge values packed, unpacked into used variables and compared bit for bit, a sentinel after them proving the exact extent; non-trivial = distinct message bytes",
        require="rpc_values rpc_large_messages".split()),
    "P15": dict(harness="p12_wire.cc", jobs=jobs(
        J("asan", 120, 1000, repeat=4, trepeat=12, scenario="rpc_hostile")),
        rule="valid messages cut at every kind of place, damaged, or random with planted size fields, unpacked as every type from an exact-size heap block with counting elements and allocators; non-trivial = distinct (bytes, reader sequence)",
        require="rpc_truncated rpc_hostile_reads rpc_hostile_errors".split()),
    "P16": dict(harness="p16_net.cc", link=WRAP, jobs=jobs(
        J("asan", 40, 400, repeat=3, trepeat=8, scenario="deliver", perturb=12),
        J("asan", 20, 200, scenario="cuts", perturb=12),
        J("tsan", 25, 250, repeat=2, trepeat=6, scenario="deliver", perturb=12),
        J("tsan", 10, 100, scenario="cuts", perturb=12),
        J("asan", 8, 80, scenario="crowd", perturb=12),
        J("tsan", 4, 40, scenario="crowd", perturb=12),
        J("asan", 20, 200, scenario="idle")),
        rule="listeners and connectors over loopback (epoll and select, binary and line codec), several senders per connection in both directions, with short and would-block transfers, signals, peers that do not read and peers that cut their packets anywhere; every packet names its connection, direction, sender and sequence and is checked on arrival; non-trivial = distinct configuration or cutting",
        require="packets_delivered conns_epoll conns_select crowd_packets cut_packets idle_0 idle_1 idle_2 idle_3 sizes_checked echo_cases own_codec_cases line_codec_cases injected_short_recv injected_short_send injected_again_send".split()),
    "P17": dict(harness="p16_net.cc", link=WRAP, jobs=jobs(
        J("asan", 100, 600, repeat=3, trepeat=8, scenario="lifecycle", perturb=12),
        J("asan", 50, 300, scenario="limit", perturb=12),
        J("asan", 60, 300, repeat=2, trepeat=6, scenario="connector", perturb=12),
        J("tsan", 50, 400, repeat=2, trepeat=6, scenario="lifecycle", perturb=12),
        J("tsan", 25, 200, scenario="limit", perturb=12),
        J("tsan", 30, 200, scenario="connector", perturb=12)),
        rule="raw clients end their connections in every way (orderly, reset, refused packet, local shutdown, garbage, half a packet, unread output) while others come and go, the listener is full or stopped; every callback and dispatched packet is logged against a state machine per connection; non-trivial = distinct history",
        require="connections_ended own_codecs stopped_under_traffic refused_over_limit slots_freed connects_failed connects_over_limit ended_by_peer".split()),
    "P18": dict(harness="p16_net.cc", link=WRAP, jobs=jobs(
        J("asan", 50, 400, repeat=2, trepeat=8, scenario="rpc_calls", perturb=12),
        J("asan", 80, 600, repeat=2, trepeat=8, scenario="rpc_ends", perturb=12),
        J("asan", 80, 600, scenario="rpc_hostile_peer", perturb=12),
        J("tsan", 25, 300, scenario="rpc_calls", perturb=12),
        J("tsan", 50, 400, repeat=2, trepeat=6, scenario="rpc_ends", perturb=12),
        J("tsan", 40, 300, scenario="rpc_hostile_peer", perturb=12),
        J("asan", 1, 3, scenario="rpc_long"),
        J("asan", 200, 3000, scenario="rpc_names"),
        J("asan", 15, 150, scenario="rpc_burst"),
        J("tsan", 8, 80, scenario="rpc_burst")),
        rule="threads call and notify over shared connections and match every result to its own arguments; connections end, time limits pass and hostile peers answer wrongly while calls are pending; non-trivial = distinct (configuration, ending) class",
        require="rpc_results rpc_long_calls rpc_bind_refused rpc_unbound rpc_dispatched rpc_burst_calls rpc_unknown_refused rpc_thrown rpc_few_refused rpc_notifies rpc_ended_with_value rpc_ended_with_error rpc_timeouts rpc_hostile_values rpc_hostile_errors".split()),
    "P19": dict(harness="p19_log.cc", jobs=jobs(
        J("asan", 40, 400, repeat=2, trepeat=6, scenario="async", perturb=8),
        J("asan", 60, 600, scenario="async_stop", perturb=8),
        J("asan", 25, 250, scenario="async_burst", perturb=8),
        J("asan", 2, 8, scenario="async_backlog"),
        J("asan", 4, 12, scenario="async_flush"),
        J("tsan", 20, 200, scenario="async", perturb=8),
        J("tsan", 30, 300, scenario="async_stop", perturb=8)),
        rule="several threads append self-describing lines of many sizes while the logger starts, rolls, stops or is destroyed; the files are read back and every line is matched to its writer and position; non-trivial = distinct configuration and line count",
        require="log_lines log_stop_races log_lines_before_start log_ended_by_destructor log_bursts log_backlog_buffers log_flushed_while_running log_rolled_files log_one_file_cases log_large_lines_cases".split()),
    "P20": dict(harness="p19_log.cc", jobs=jobs(
        J("asan", 80, 400, repeat=2, trepeat=6, scenario="statements", perturb=8),
        J("tsan", 40, 200, scenario="statements", perturb=8),
        J("asan", 80, 200, scenario="levels"),
        J("asan", 160, 400, scenario="printing"),
        J("asan", 40, 100, scenario="fatal")),
        rule="random sequences of streamed values on several threads compared with a reference rendering of the whole line, long, fatal, filtered and console-printed statements included; non-trivial = distinct case",
        require="statements statements_long level_checks printed fatals times_formatted threads_created_meanwhile".split()),
    "P21": dict(harness="p21_files.cc", jobs=jobs(
        J("asan", 30, 400, repeat=3, trepeat=8, scenario="ini"),
        J("asan", 60, 800, repeat=2, trepeat=8, scenario="ini_hostile")),
        rule="random ini files (sections, repeated sections, keys, comments, blank and long lines, CRLF) read through every getter into exact-size buffers and compared with a reference, and random bytes; non-trivial = distinct file",
        require="ini_values ini_long_lines ini_repeated_sections ini_cut_strings ini_reopened ini_keys_outside ini_hostile_values ini_long_names".split()),
    "P22": dict(harness="p21_files.cc", jobs=jobs(
        J("asan", 30, 400, repeat=3, trepeat=8, scenario="tab"),
        J("asan", 2, 10, scenario="tab_huge"),
        J("asan", 60, 800, repeat=2, trepeat=8, scenario="tab_hostile")),
        rule="random tables read from file or unterminated memory, every cell, name, index and search compared with a reference, places outside probed, saved and read again, tables beyond 65535 records, and damaged content; non-trivial = distinct content",
        require="tab_cells tab_outside tab_index_lookups tab_other_index tab_searches tab_saved tab_saved_binary tab_long_lines tab_hostile_binary_opened tab_hostile_binary_refused tab_huge tab_reopened tab_skipped_lines tab_hostile_opened tab_hostile_refused".split()),
    "P23": dict(harness="p23_basic.cc", link=["-Wl,--wrap=time"], jobs=jobs(
        J("asan", 240, 2400, repeat=3, trepeat=8, scenario="address"),
        J("asan", 240, 2400, repeat=2, trepeat=8, scenario="address_bytes")),
        rule="random v4 and v6 addresses in every written form (unterminated views), their bytes, port, host and text compared with the system's own, the text read again, malformed texts refused, and random socket address bytes accepted or refused; non-trivial = distinct case",
        require="address_v4 address_v6 address_v4_in_v6 address_v6_no_port address_text_again address_bad_refused address_bytes_accepted address_bytes_refused".split()),
    "P24": dict(harness="p23_basic.cc", link=["-Wl,--wrap=time"], jobs=jobs(
        J("asan", 200, 1200, repeat=4, trepeat=8, scenario="text")),
        rule="random strings through every text, number and path helper, each compared with a reference, exact-size inputs and outputs; non-trivial = distinct case",
        require="text_explodes text_replaces text_trims text_escapes text_long_wide text_numbers text_paths text_bad_paths text_checked_good text_checked_bad".split()),
    "P25": dict(harness="p23_basic.cc", link=["-Wl,--wrap=time"], jobs=jobs(
        J("asan", 160, 1200, repeat=4, trepeat=8, scenario="bytes"),
        J("asan", 160, 1200, repeat=2, trepeat=8, scenario="secret")),
        rule="random bytes through base64, md5 (any split), hex, byte order and the block stream, compared with references, damaged and lying input; passwords and numbered texts encrypted at many times of the clock (a stand-in) and decrypted, damaged too; non-trivial = distinct case",
        require="bytes_encoded bytes_endian bytes_stream_values bytes_stream_lies secret_passwords secret_bad_passwords secret_numbers secret_damaged_refused secret_damaged_read".split()),
    "P26": dict(harness="p23_basic.cc", link=["-Wl,--wrap=time"], jobs=jobs(
        J("asan", 120, 600, repeat=2, trepeat=8, scenario="variable"),
        J("tsan", 30, 200, repeat=3, trepeat=8, scenario="variable_threads")),
        rule="random variables of every type: value, text, order, copies, arithmetic compared with a reference, and one variable changed by many threads under TSan; non-trivial = distinct case",
        require="variable_values variable_same_type variable_threads".split()),
    "P27": dict(harness="p27_sys.cc", jobs=jobs(
        J("asan", 80, 1200, repeat=2, trepeat=8, scenario="pool", perturb=8),
        J("tsan", 48, 600, repeat=2, trepeat=8, scenario="pool", perturb=8),
        J("asan", 80, 800, scenario="pool_capacity"),
        J("asan", 40, 400, scenario="pool_guards"),
        J("asan", 40, 400, scenario="pool_containers")),
        rule="threads allocate, fill, hand over and free blocks of pools of several shapes; every block is checked against all blocks in use, for its alignment and its content; pools are filled and emptied repeatedly; foreign, double and outside accesses are tried; non-trivial = distinct case",
        require="pool_blocks pool_freed_by_another_thread pool_full pool_refilled pool_os_accesses_checked pool_accesses_checked pool_foreign_refused pool_huge pool_container_operations pool_own_containers stack_operations".split()),
    "P28": dict(harness="p27_sys.cc", jobs=jobs(
        J("asan", 80, 1200, scenario="threadpool", perturb=8),
        J("tsan", 40, 600, repeat=2, trepeat=8, scenario="threadpool", perturb=8),
        J("asan", 80, 1200, scenario="threadpool_rendezvous"),
        J("asan", 80, 1200, scenario="queue", perturb=8),
        J("tsan", 40, 600, repeat=2, trepeat=8, scenario="queue", perturb=8),
        J("asan", 80, 1200, scenario="threads", perturb=8),
        J("tsan", 40, 400, scenario="threads", perturb=8)),
        rule="threads feed the pool and the queue with numbered tasks which return, throw or enqueue again, while it is drained or destroyed; every task's runs, result and order are counted; threads repeat their function as often as it asks; non-trivial = distinct case",
        require="threadpool_tasks threadpool_exceptions threadpool_waited threadpool_destroyed_with_queued threadpool_rendezvous queue_tasks queue_orders queue_nested queue_destroyed_with_queued thread_calls threads_stopped".split()),
    "P29": dict(harness="p29_engine.cc", jobs=jobs(
        J("asan", 36, 120, repeat=4, trepeat=8, scenario="console", perturb=12)),
        rule="clients send commands in pieces to the console while handlers are registered and replaced and nets come, are listed and killed; every answer is compared with the one due; non-trivial = distinct conversation",
        require="console_refused console_answers console_replaced_seen console_unknown_closed console_lists console_kills console_killed_connections console_helps console_killall".split()),
    "P30": dict(harness="p29_engine.cc", jobs=jobs(
        J("asan", 400, 4000, repeat=3, trepeat=8, scenario="kernel"),
        J("tsan", 250, 2500, scenario="kernel"),
        J("asan", 250, 2500, repeat=2, trepeat=8, scenario="registry", perturb=12)),
        rule="engines with random options are used, left busy or idle and destroyed; executors, timers and thread callbacks are checked while they run and afterwards; listeners of the same and of no name start at once; non-trivial = distinct options",
        require="engines engine_timers engine_ended_idle engine_ended_busy engine_thread_callbacks engine_functions engine_functions_dropped engine_threads_counted engine_threads_ended registry_same registry_unnamed registry_names_again registry_removed_by_hand".split()),
    "P32": dict(harness="p32_sock.cc", jobs=jobs(
        J("asan", 300, 3000, scenario="connect"),
        J("asan", 8, 60, scenario="wait"),
        J("asan", 200, 3000, scenario="options"),
        J("asan", 150, 3000, scenario="data"),
        J("asan", 150, 3000, scenario="own"),
        J("asan", 12, 100, scenario="select_high"),
        J("asan", 25, 250, scenario="nets"),
        J("asan", 200, 3000, scenario="datagrams"),
        J("tsan", 40, 400, scenario="close_race"),
        J("tsan", 10, 100, scenario="errors")),
        rule="sockets made in every way (none yet, made, non-blocking, descriptor out of a fd_set) connect to peers that listen, refuse, answer late or never, are of another family or no address, with signals; settings and addresses are compared with the system's; bytes with a model; open descriptors with those owned after each operation; non-trivial = distinct situation or operation sequence",
        require="connected refused timeouts late_answers datagrams no_addresses options_checked errors_checked datagrams_by_calls bytes_checked ends send_would_block recv_would_block ownerships_checked close_races connections_checked listens_refused connects_refused".split()),
    "P34": dict(harness="p34_plugin.cc", jobs=jobs(
        J("asan", 300, 3000, scenario="library"),
        J("asan", 250, 3000, scenario="manager")),
        rule="directories of built plugins, damaged files and directories under names with and without prefix, suffix and version; programs of naming, loading, resolving, unloading and destroying, and of the manager's paths, names, loads and unloads; which file is mapped, what every symbol gives, visibility, opening calls and errors are compared with a model of the search; non-trivial = distinct operation sequence",
        require="names loads loads_global no_library no_file unloads destroyed_loaded current_directory symbols opened names_removed several_names load_failed loads_again loaded_twice unloads_of_none".split()),
    "P35": dict(harness="p34_plugin.cc", jobs=jobs(
        J("asan", 1500, 20000, scenario="script"),
        J("tsan", 100, 1000, scenario="script_race")),
        rule="programs of making environments by pointer and by type, getting and closing them, existing and not, in every order, and from several threads; ids, pointers and lives are compared with a model; non-trivial = distinct operation sequence",
        require="made made_by_type no_creator closed closed_none race_steps".split()),
    "P38": dict(harness="p38_global.cc", jobs=jobs(
        J("asan", 30, 300, repeat=2, trepeat=8, scenario="time"),
        J("tsan", 15, 150, repeat=2, trepeat=8, scenario="time"),
        J("asan", 60, 600, scenario="globals"),
        J("tsan", 40, 400, repeat=2, trepeat=4, scenario="globals"),
        J("asan", 1, 1, trepeat=4, scenario="single"),
        J("tsan", 1, 1, repeat=3, trepeat=12, scenario="single")),
        rule="times bracketed by the system's clocks in several zones, globals set and read by many threads against a model of each name, single instances asked for by many threads at once; non-trivial = distinct case",
        require="time_ms time_formats time_ticks single_instances globals_read globals_cases".split()),
    "P37": dict(harness="p36_process.cc", link=["-Wl,--wrap=kill,--wrap=nanosleep,--wrap=clock_nanosleep,--wrap=usleep,--wrap=fork,--wrap=gethostname"], jobs=jobs(
        J("asan", 6000, 60000, repeat=2, trepeat=8, scenario="file")),
        rule="programs of opening, reading, writing, seeking, telling, duplicating, truncating, switching and closing on files, descriptors sharing a place and pipes, closed descriptors too; every answer, byte and place is compared with a model and with the system's own view; non-trivial = distinct operation sequence",
        require="file_writes file_reads file_reads_at_end file_seeks file_seeks_refused file_tells file_truncated file_duplicates_closed file_pipes".split()),
    "P36": dict(harness="p36_process.cc", link=["-Wl,--wrap=kill,--wrap=nanosleep,--wrap=clock_nanosleep,--wrap=usleep,--wrap=fork,--wrap=gethostname"], jobs=jobs(
        J("asan", 1500, 20000, scenario="pidfile"),
        J("asan", 1500, 20000, scenario="wait"),
        J("asan", 500, 4000, scenario="names"),
        J("asan", 120, 1500, scenario="exec"),
        J("asan", 12, 100, scenario="usage"),
        J("asan", 60, 600, scenario="daemon"),
        J("asan", 40, 400, scenario="rlimit")),
        rule="pid files of every content, written anywhere; waits for processes that stay, end when asked, end on their own or may not be signalled (kill and sleeping are stand-ins); names into buffers of every size; commands and lines of every length; memory of idle processes; daemons with failing forks; core limits as root and not; each compared with the system's own view; non-trivial = distinct content, size or life",
        require="files_not_there written read no_pid waited waited_not_permitted waits_refused names_whole names_cut exec exec_long exec_long_line usages daemons daemon_fork_fails rlimit_set".split()),
    "P33": dict(harness="p33_task.cc", jobs=jobs(
        J("asan", 3000, 60000, scenario="program"),
        J("asan", 500, 5000, scenario="contains"),
        J("asan", 300, 4000, scenario="executors"),
        J("tsan", 150, 2000, scenario="executors", perturb=20)),
        rule="tasks of every kind of callable (size, alignment, copyable or not, throwing moves, throwing runs, owned through pointers, coroutines) go through programs of replacing, moving, running, clearing and destroying, and through executors; lives, runs, content and addresses of each callable are checked against a model; non-trivial = distinct operation sequence",
        require="moves self_moves runs runs_threw empty_runs dropped coroutines_run coroutines_dropped values_checked batches executor_runs executor_drops posts_with_arguments made_align64 made_fits-exactly made_one-too-big made_trivial made_trivial-big made_trivial-copied-big".split()),
    "P31": dict(harness="p16_net.cc", link=WRAP, jobs=jobs(
        J("asan", 120, 1200, repeat=3, trepeat=8, scenario="keepalive", perturb=12),
        J("tsan", 60, 600, scenario="keepalive", perturb=12)),
        rule="connections of a connector, some kept alive, end in every way (closed, reset, local shutdown, half a packet, refused data, much unsent) and are connected again to the same or another server, after failed attempts and sends while they are down; places, callbacks and packets both ways are checked each time; non-trivial = distinct history",
        require="keep_served keep_ends keep_again keep_again_same_address keep_again_failed keep_given_up keep_full keep_sent_while_down".split()),
}
