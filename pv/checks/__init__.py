from . import c_stats, c_random, c_est, c_trace, c_func, c_quad, c_lanczos, c_native, c_valid, c_tqli, c_input, c_options, c_install, c_plot
