----------------------------- MODULE Builtins -----------------------------
(* The parsers TRAPpy documents: <<name, unique word>> per scope.          *)
EXTENDS Sequences
Thermal0 == <<
  <<"thermal", "thermal_temperature:">>, <<"thermal_governor", "thermal_power_allocator:">>,
  <<"cpu_out_power", "thermal_power_cpu_limit">>, <<"cpu_in_power", "thermal_power_cpu_get_power">>,
  <<"pid_controller", "thermal_power_allocator_pid">>, <<"devfreq_in_power", "thermal_power_devfreq_get_power:">>,
  <<"devfreq_out_power", "thermal_power_devfreq_limit:">> >>
Sched0 == <<
  <<"sched_load_avg_sg", "sched_load_avg_sg:">>, <<"sched_load_avg_task", "sched_load_avg_task:">>,
  <<"sched_load_avg_cpu", "sched_load_avg_cpu:">>, <<"sched_contrib_scale_factor", "sched_contrib_scale_f:">>,
  <<"cpu_capacity", "cpu_capacity:">>, <<"sched_wakeup", "sched_wakeup:">>, <<"sched_wakeup_new", "sched_wakeup_new:">>,
  <<"sched_switch", "sched_switch:">>, <<"cpu_frequency", "cpu_frequency:">>, <<"sched_migrate_task", "sched_migrate_task:">> >>
Dynamic0 == <<
  <<"sys_enter", "sys_enter">>, <<"sys_exit", "sys_exit">>, <<"cpu_idle", "cpu_idle">>,
  <<"tracing_mark_write", "tracing_mark_write:">>, <<"clock_enable", "clock_enable:">>, <<"clock_disable", "clock_disable:">>,
  <<"clock_set_rate", "clock_set_rate:">>, <<"funcgraph_entry", "funcgraph_entry">>, <<"funcgraph_exit", "funcgraph_exit">>,
  <<"function", "function">>, <<"ext4_da_write_begin", "ext4_da_write_begin:">>, <<"ext4_da_write_end", "ext4_da_write_end:">>,
  <<"ext4_sync_file_enter", "ext4_sync_file_enter:">>, <<"ext4_sync_file_exit", "ext4_sync_file_exit:">>,
  <<"f2fs_write_begin", "f2fs_write_begin:">>, <<"f2fs_write_end", "f2fs_write_end:">>,
  <<"f2fs_sync_file_enter", "f2fs_sync_file_enter:">>, <<"f2fs_sync_file_exit", "f2fs_sync_file_exit:">> >>
===========================================================================
