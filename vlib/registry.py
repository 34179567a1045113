import os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def vtime(b):
    return [b.build_shared("vtime", os.path.join(HERE, "ref/vtime.c"))]


def sched_ext(b):
    return b.build_ext("sched", extra=["-finstrument-functions",
                                       "-finstrument-functions-exclude-file-list=/usr/,pybind11,/opt/gfft"],
                       opt=("-O0",), link=("-Wl,-Bsymbolic",), extra_src=[os.path.join(HERE, "ref/vsched.cpp")])


def asan_ext(b):
    # FFTW instead of MKL: MKL's AVX-512 planner reads past the end of its own descriptor blocks, which is
    # harmless with the normal allocator but faults at the end of an ASan heap region.
    return b.build_ext("asan", extra=["-fsanitize=address", "-g1", "-fno-omit-frame-pointer"], opt=("-O1",),
                       link=("-fsanitize=address",), fft=["-lfftw3", "-lfftw3f", "-lgomp", "-lpthread", "-lm", "-ldl"])


def asan_lib(b):
    import subprocess
    return [subprocess.run(["g++", "-print-file-name=" + n], capture_output=True, text=True).stdout.strip()
            for n in ("libasan.so", "libstdc++.so.6")]


PROPS = {
    "C01": {"level": "model_checking",
            
            "parts": [{"name": "field", "kind": "py", "src": "checks/c01_field.py"},
                      {"name": "c01_cpp", "kind": "cpp", "src": "checks/c01_cpp.cpp", "variant": "asan"}]},
    "C02": {"level": "model_checking",
            
            "parts": [{"name": "history", "kind": "py", "src": "checks/c02_history.py", "preload": vtime}]},
    "C03": {"level": "model_checking", 
            "parts": [{"name": "threads", "kind": "py", "src": "checks/c03_threads.py", "ext": sched_ext}]},
    "C04": {"level": "model_checking", 
            "parts": [{"name": "layout", "kind": "py", "src": "checks/c04_layout.py"}]},
    "C05": {"level": "model_checking", 
            "parts": [{"name": "size", "kind": "py", "src": "checks/c05_size.py"}]},
    "C06": {"level": "model_checking", 
            "parts": [{"name": "corr", "kind": "py", "src": "checks/c06_vario.py"},
                      {"name": "c06_class", "kind": "cpp", "src": "checks/c06_class.cpp", "variant": "asan"}]},
    "C07": {"level": "model_checking",
            "parts": [{"name": "c07_fft", "kind": "cpp", "src": "checks/c07_fft.cpp", "variant": "asan"}]},
    "C08": {"level": "model_checking",
            "parts": [{"name": "memory", "kind": "py", "src": "checks/c08_memory.py", "ext": asan_ext, "preload": asan_lib,
                       "env": {"PYTHONMALLOC": "malloc",
                               "ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=97:max_malloc_fill_size=1048576:"
                                               "malloc_fill_byte=190:quarantine_size_mb=64"}}]},
    "C09": {"level": "model_checking",
            "parts": [{"name": "c09_random", "kind": "cpp", "src": "checks/c09_random.cpp", "variant": "asan"}]},
    "C10": {"level": "model_checking",
            "parts": [{"name": "empirical", "kind": "py", "src": "checks/c10_empirical.py"}]},
    "C11": {"level": "model_checking",
            "parts": [{"name": "c11_dist", "kind": "cpp", "src": "checks/c11_dist.cpp", "variant": "asan"}]},
    "C12": {"level": "model_checking",
            "parts": [{"name": "c12_grid", "kind": "cpp", "src": "checks/c12_grid.cpp", "variant": "asan"}]},
    "C13": {"level": "model_checking",
            "parts": [{"name": "c13_binary", "kind": "cpp", "src": "checks/c13_binary.cpp"},
                      {"name": "c13_asan", "kind": "cpp", "src": "checks/c13_binary.cpp", "variant": "asan", "env": {"MC_SKIP_WORDS": "1"}}]},
    "C14": {"level": "model_checking",
            "parts": [{"name": "c14_text", "kind": "cpp", "src": "checks/c14_text.cpp", "variant": "asan"}]},
    "C15": {"level": "model_checking",
            "parts": [{"name": "c15_log", "kind": "cpp", "src": "checks/c15_log.cpp", "variant": "asan"}]},
    "C16": {"level": "model_checking",
            "parts": [{"name": "c16_geom", "kind": "cpp", "src": "checks/c16_geom.cpp", "variant": "asan"}]},
    "C17": {"level": "model_checking",
            "parts": [{"name": "c17_linalg", "kind": "cpp", "src": "checks/c17_linalg.cpp", "variant": "asan"}]},
    "C18": {"level": "model_checking",
            "parts": [{"name": "c18_krig", "kind": "cpp", "src": "checks/c18_krig.cpp", "variant": "asan"}]},
    "C19": {"level": "model_checking",
            "parts": [{"name": "c19_surface", "kind": "cpp", "src": "checks/c19_surface.cpp", "variant": "asan"}]},
    "C20": {"level": "model_checking",
            "parts": [{"name": "c20_storm", "kind": "cpp", "src": "checks/c20_storm.cpp", "variant": "asan"}]},
    "C21": {"level": "model_checking",
            "parts": [{"name": "c21_well", "kind": "cpp", "src": "checks/c21_well.cpp", "variant": "asan",
                       "env": {"ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=97:allocator_may_return_null=1:"
                                               "max_malloc_fill_size=1048576:hard_rss_limit_mb=2000"}}]},
    "C22": {"level": "model_checking",
            "parts": [{"name": "c22_segy", "kind": "cpp", "src": "checks/c22_segy.cpp", "variant": "asan",
                       "env": {"ASAN_OPTIONS": "detect_leaks=0:detect_stack_use_after_return=0:abort_on_error=0:exitcode=97:allocator_may_return_null=1:"
                                               "max_malloc_fill_size=1048576:hard_rss_limit_mb=2000"}}]},
    "C23": {"level": "model_checking",
            "parts": [{"name": "c23_trend", "kind": "cpp", "src": "checks/c23_trend.cpp", "variant": "asan",
                       "env": {"ASAN_OPTIONS": "detect_leaks=0:detect_stack_use_after_return=0:abort_on_error=0:exitcode=97:allocator_may_return_null=1:"
                                               "max_malloc_fill_size=100000:hard_rss_limit_mb=3000"}}]},
    "C24": {"level": "model_checking",
            "parts": [{"name": "c24_pointset", "kind": "cpp", "src": "checks/c24_pointset.cpp", "variant": "asan",
                       "env": {"ASAN_OPTIONS": "detect_leaks=0:detect_stack_use_after_return=0:abort_on_error=0:exitcode=97:allocator_may_return_null=1:"
                                               "max_malloc_fill_size=100000:hard_rss_limit_mb=3000"}}]},
    "C25": {"level": "model_checking",
            "parts": [{"name": "c25_wavelet", "kind": "cpp", "src": "checks/c25_wavelet.cpp", "variant": "asan",
                       "env": {"ASAN_OPTIONS": "detect_leaks=0:detect_stack_use_after_return=0:abort_on_error=0:exitcode=97:allocator_may_return_null=1:"
                                               "max_malloc_fill_size=100000:hard_rss_limit_mb=3000"}}]},
    "C26": {"level": "model_checking",
            "parts": [{"name": "c26_eclipse", "kind": "cpp", "src": "checks/c26_eclipse.cpp", "variant": "asan",
                       "env": {"ASAN_OPTIONS": "detect_leaks=0:detect_stack_use_after_return=0:abort_on_error=0:exitcode=97:allocator_may_return_null=1:"
                                               "max_malloc_fill_size=100000:hard_rss_limit_mb=3000"}}]},
    "C27": {"level": "model_checking",
            "parts": [{"name": "c27_xml", "kind": "cpp", "src": "checks/c27_xml.cpp", "variant": "asan",
                       "env": {"ASAN_OPTIONS": "detect_leaks=0:detect_stack_use_after_return=0:abort_on_error=0:exitcode=97:allocator_may_return_null=1:"
                                               "max_malloc_fill_size=100000:hard_rss_limit_mb=3000"}}]},
}
