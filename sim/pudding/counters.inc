SIM_COUNTER(f_out_of_date_acquire)
SIM_COUNTER(f_out_of_date_present)
SIM_COUNTER(f_suboptimal_acquire)
SIM_COUNTER(f_suboptimal_present)
SIM_COUNTER(f_spurious_out_of_date)
SIM_COUNTER(f_display_change)
SIM_COUNTER(f_resize)
SIM_COUNTER(f_resize_during_frame)
SIM_COUNTER(f_minimise)
SIM_COUNTER(f_start_minimised)
SIM_COUNTER(f_own_size)
SIM_COUNTER(n_spare_window)
SIM_COUNTER(n_spare_moved)
SIM_COUNTER(n_descriptor)
SIM_COUNTER(f_restore)
SIM_COUNTER(f_slow_gpu)
SIM_COUNTER(f_slow_presentation)
SIM_COUNTER(f_late_image_release)
SIM_COUNTER(f_host_delay)
SIM_COUNTER(f_alloc_failure)
SIM_COUNTER(f_device_lost)
SIM_COUNTER(f_out_of_host_memory)
SIM_COUNTER(f_out_of_device_memory)
SIM_COUNTER(f_surface_lost)
SIM_COUNTER(f_init_failed)
SIM_COUNTER(f_sdl_failure)
SIM_COUNTER(f_extra_images)
SIM_COUNTER(f_clock_wrap)
SIM_COUNTER(f_high_dpi_display)
SIM_COUNTER(n_window_created_in_render)
SIM_COUNTER(f_handle_reused)
SIM_COUNTER(f_long_stall)
SIM_COUNTER(f_event_burst)
SIM_COUNTER(f_key_repeat)
SIM_COUNTER(f_event_dead_window)
SIM_COUNTER(f_event_unknown_type)
SIM_COUNTER(f_key_up_other_window)
SIM_COUNTER(f_messenger_callback)
SIM_COUNTER(f_id_exhaustion)
SIM_COUNTER(n_window_created)
SIM_COUNTER(n_window_destroyed_in_loop)
SIM_COUNTER(n_window_destroyed_in_flight)
SIM_COUNTER(n_window_self_destroyed)
SIM_COUNTER(n_window_destroyed_on_quit)
SIM_COUNTER(n_window_created_on_quit)
SIM_COUNTER(n_release_without_press)
SIM_COUNTER(n_pointer_still)
SIM_COUNTER(n_wide_pass)
SIM_COUNTER(n_multisample_pass)
SIM_COUNTER(n_pointer_outside)
SIM_COUNTER(n_swapchain_recreated)
SIM_COUNTER(n_frame_skipped)
SIM_COUNTER(n_acquire_blocked)
SIM_COUNTER(n_fence_blocked)
SIM_COUNTER(n_submits)
SIM_COUNTER(n_multi_window_submit)
SIM_COUNTER(n_presents)
SIM_COUNTER(n_passes)
SIM_COUNTER(n_multi_target_pass)
SIM_COUNTER(n_framebuffer_created)
SIM_COUNTER(n_framebuffer_reused)
SIM_COUNTER(n_render_pass_reused)
SIM_COUNTER(n_target_rewritten)
SIM_COUNTER(n_target_shared)
SIM_COUNTER(n_target_mutated)
SIM_COUNTER(n_target_view_swapped)
SIM_COUNTER(n_events_delivered)
SIM_COUNTER(n_key_press)
SIM_COUNTER(n_frames_beyond_256)
SIM_COUNTER(n_stopped_loudly)
SIM_COUNTER(n_quit)
SIM_COUNTER(n_id_ops)
SIM_COUNTER(n_id_reused)
SIM_COUNTER(n_id_marathon)
SIM_COUNTER(n_idle_frame)
SIM_COUNTER(n_pending_targets)
SIM_COUNTER(n_early_push)
SIM_COUNTER(n_loop_entered_again)
