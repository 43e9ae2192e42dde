SIM_COUNTER(f_preemption)
SIM_COUNTER(f_preemption_at_shared_variable)
SIM_COUNTER(f_nested_evaluation)
SIM_COUNTER(f_abandoned_evaluation)
SIM_COUNTER(f_thread_stopped_for_good)
SIM_COUNTER(f_alloc_failure)
SIM_COUNTER(f_heap_exhausted)
SIM_COUNTER(f_dirty_stack)
SIM_COUNTER(f_rounding_mode)
SIM_COUNTER(f_inputs_overwritten)
SIM_COUNTER(f_thread_ended)
SIM_COUNTER(f_console_write_failed)
SIM_COUNTER(n_evaluations)
SIM_COUNTER(n_alloc_requests)
SIM_COUNTER(n_accesses_k)
SIM_COUNTER(n_shared_variable_accesses)
SIM_COUNTER(n_shared_inputs)
SIM_COUNTER(n_inputs_read_only)
SIM_COUNTER(n_nested_depth_2)
SIM_COUNTER(n_reference_evaluations)
SIM_COUNTER(n_overtaking_runs)
SIM_COUNTER(n_army_runs)
SIM_COUNTER(n_thread_local_destroyed)
SIM_COUNTER(n_results_reread)
SIM_COUNTER(n_text)
SIM_COUNTER(n_text_threw)
SIM_COUNTER(n_messages)
SIM_COUNTER(n_raw_messages)
SIM_COUNTER(n_huge_messages)
SIM_COUNTER(n_echo_messages)
SIM_COUNTER(n_ring_wrapped)
SIM_COUNTER(n_blocked_on_lock)
