# harness binary -> sources under /verif/sim (see build.py)
HARNESSES = {
    "h_sched": {"src": ["h_sched.cpp"], "rt": ["dst_main.cpp", "alloc.cpp"], "props": ["C01", "C02", "C03", "C04", "C05"]},
    "h_async": {"src": ["h_async.cpp"], "rt": ["dst_main.cpp", "thr.cpp", "tsan_rt.cpp"], "lib_variant": {"Scheduler.cpp": "yield"}, "props": ["C06", "C07"]},
    "h_ports": {"src": ["h_ports.cpp"], "rt": ["dst_main.cpp", "alloc.cpp"], "props": ["C09", "C10", "C11"]},
    "h_res": {"src": ["h_res.cpp"], "rt": ["dst_main.cpp", "alloc.cpp"], "props": ["C12", "C13", "C15"]},
    "h_cont": {"src": ["h_cont.cpp"], "rt": ["dst_main.cpp", "alloc.cpp"], "props": ["C14"]},
    "h_mem": {"src": ["h_mem.cpp"], "rt": ["dst_main.cpp", "alloc.cpp"], "props": ["C16", "C17"]},
    "h_memif": {"src": ["h_memif.cpp"], "rt": ["dst_main.cpp", "alloc.cpp"], "props": ["C18"]},
    "h_det": {"src": ["h_det.cpp", "h_sched.cpp", "h_ports.cpp", "h_res.cpp", "h_cont.cpp", "h_mem.cpp", "h_memif.cpp", "h_reg.cpp", "h_stat.cpp", "h_trig.cpp", "h_expr.cpp", "h_noti.cpp", "h_pipe.cpp", "h_rep.cpp", "h_ptr.cpp", "h_state.cpp", "h_tree.cpp", "h_cache.cpp", "h_param.cpp"], "rt": ["dst_main.cpp", "alloc.cpp", "iofault.cpp"], "props": ["C08"]},
    "h_stat": {"src": ["h_stat.cpp"], "rt": ["dst_main.cpp", "alloc.cpp"], "props": ["C20"]},
    "h_expr": {"src": ["h_expr.cpp"], "rt": ["dst_main.cpp", "alloc.cpp"], "props": ["C22"]},
    "h_trig": {"src": ["h_trig.cpp"], "rt": ["dst_main.cpp", "alloc.cpp"], "props": ["C21"]},
    "h_noti": {"src": ["h_noti.cpp"], "rt": ["dst_main.cpp", "alloc.cpp", "iofault.cpp"], "props": ["C23"]},
    "h_pipe": {"src": ["h_pipe.cpp"], "rt": ["dst_main.cpp", "alloc.cpp", "iofault.cpp"], "props": ["C24"]},
    "h_rep": {"src": ["h_rep.cpp"], "rt": ["dst_main.cpp", "alloc.cpp", "iofault.cpp"], "props": ["C25"]},
    "h_ptr": {"src": ["h_ptr.cpp"], "rt": ["dst_main.cpp", "alloc.cpp"], "props": ["C26"]},
    "h_state": {"src": ["h_state.cpp"], "rt": ["dst_main.cpp", "alloc.cpp"], "props": ["C27"]},
    "h_tree": {"src": ["h_tree.cpp"], "rt": ["dst_main.cpp", "alloc.cpp"], "props": ["C28"]},
    "h_param": {"src": ["h_param.cpp"], "rt": ["dst_main.cpp", "alloc.cpp", "iofault.cpp"], "props": ["C30"]},
    "h_cache": {"src": ["h_cache.cpp"], "rt": ["dst_main.cpp", "alloc.cpp"], "props": ["C29"]},
    "h_reg": {"src": ["h_reg.cpp"], "rt": ["dst_main.cpp", "alloc.cpp"], "props": ["C19"]},
}
PROPERTY_HARNESS = {p: h for h, d in HARNESSES.items() for p in d["props"]}
