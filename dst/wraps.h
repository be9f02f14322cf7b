W (g_source_unref)
W (g_source_destroy)
W (g_source_ref)
W (g_source_attach)
W (g_source_set_ready_time)
W (g_object_ref)
W (g_object_unref)
W (g_error_copy)
W (g_error_free)
W (g_value_copy)
W (g_value_unset)
W (g_queue_push_head_link)
W (g_queue_push_tail_link)
W (g_queue_pop_head_link)
W (g_queue_pop_tail_link)
W (g_queue_unlink)
W (g_main_context_wakeup)
W (g_main_loop_quit)
W (g_free)
W (g_ptr_array_add)
W (g_cancellable_cancel)
W (g_cancellable_disconnect)
W (g_memdup2)
W (g_ptr_array_unref)
