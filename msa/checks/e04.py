"""E04: required pointer arguments are rejected when missing.

Nullness analysis per public routine and pointer parameter: the parameter is assumed null and every path of the routine
is executed abstractly (static helpers inlined, other routines by parameter-dereference summaries)."""
import os, re
from multiprocessing import Pool
from .. import ir, report, build, paths, nullness, failflow

_P = None
_N = None
# arguments the interface neither validates nor documents as optional
NOTVALIDATED = {
 ("ms_rlog", 2): "format", ("ms_rlog_l", 3): "format", ("lmp_fseek64", 0): "stream", ("lmp_ftell64", 0): "stream",
 ("ms_readleapseconds", 0): "envvarname", ("ms3_matchselect", 1): "sid",
}
# arguments (by position) without which the routine reports failure on every path
REQUIRED = {
 "mseh_get_ptr_r": (0, 1), "mseh_set_ptr_r": (0, 1, 2), "mseh_serialize": (0, 1), "mseh_add_event_detection_r": (0, 2),
 "mseh_add_calibration_r": (0, 2), "mseh_add_timing_exception_r": (0, 2), "mseh_add_recenter_r": (0, 2), "mseh_replace": (0,),
 "mseh_print": (0,), "ms3_readmsr_selection": (0, 1), "ms3_readtracelist_selection": (0,), "ms3_url_useragent": (0,),
 "ms3_url_userpassword": (0,), "ms3_url_addheader": (0,), "msr3_writemseed": (0, 1), "mstl3_writemseed": (0, 1),
 "libmseed_memory_prealloc": (2,), "ms_sid2nslc": (0,), "ms_xchan2seedchan": (1,), "ms_nslc2sid": (0, 3, 4, 6),
 "ms_seedchan2xchan": (0, 1), "ms_doy2md": (2, 3), "ms_md2doy": (3,), "ms_nstime2timestr": (1,), "ms_timestr2nstime": (0,),
 "ms_mdtimestr2nstime": (0,), "ms_seedtimestr2nstime": (0,), "ms_readleapsecondfile": (0,), "msr3_duplicate": (0,),
 "msr3_endtime": (0,), "msr3_resize_buffer": (0,), "msr3_pack": (0, 1), "msr3_pack_header3": (0, 1), "msr3_pack_header2": (0, 1),
 "msr3_repack_mseed3": (0, 1), "msr3_parse": (0, 2), "ms3_detect": (0, 2), "ms_parse_raw3": (0,), "ms_parse_raw2": (0,),
 "ms3_matchselect": (0,), "msr3_matchselect": (0, 1), "ms3_addselect": (0, 1), "ms3_readselectionsfile": (0, 1),
 "mstl3_findID": (0, 1), "mstl3_addmsr_recordptr": (0, 1), "mstl3_readbuffer_selection": (0,), "mstl3_convertsamples": (0,),
 "mstl3_resize_buffers": (0,), "mstl3_unpack_recordlist": (0, 1), "mstl3_pack": (0, 1), "msr3_unpack_data": (0,),
 "msr3_data_bounds": (0, 1, 2), "ms_decode_data": (0, 4, 6),
}


def public(P):
    hdr = open(os.path.join(build.REPO, "libmseed", "libmseed.h")).read()
    names = set(re.findall(r"\b(\w+)\s*\(", hdr))
    return [f for f in P.defined if not f.skipped and f.name in names and not f.internal and not f.file.startswith("yyjson")]


def _run(job):
    global _N
    fn, k = job
    if _N is None:
        _N = nullness.Nullness(_P)
    f = _P.fn(fn)
    try:
        r = _N.requires(fn, k)
    except Exception as e:
        return fn, k, None, [], str(e)
    bad = []
    if r is None:
        for i, v in _N.rets.get((fn, k), ()):
            if v is None or not failflow.fails(f, v):
                bad.append(i.where())
    return fn, k, r.where() if r is not None else None, sorted(set(bad)), None


def check():
    global _P
    R = report.Report("E04")
    R.rule("For every routine declared in libmseed.h and each of its pointer parameters: with the parameter null no path dereferences it, "
           "calls through it, or passes it to a routine that dereferences it. Not validated by the interface: "
           + ", ".join("%s(%s)" % x for x in sorted((k[0], v) for k, v in NOTVALIDATED.items())) + ".")
    R.rule("For each required argument (table in msa/checks/e04.py): with it null every return is the routine's failure value.")
    _P = P = ir.load(inlined=True)
    jobs = [(f.name, k) for f in public(P) for k, a in enumerate(f.args) if a.ty == "ptr"]
    import gc
    gc.freeze()
    with Pool(int(os.environ.get("MSA_JOBS", "8"))) as pool:
        for fn, k, hit, bad, err in pool.imap_unordered(_run, jobs, chunksize=4):
            a = P.fn(fn).args[k].name
            if err:
                R.undecided("%s(%s): %s" % (fn, a, err))
            R.count("pointer_parameters")
            R.sample("%s(%s)" % (fn, a))
            if hit and (fn, k) not in NOTVALIDATED:
                R.violation("%s:%d" % (fn, k), "%s(%s): a null argument is dereferenced at %s" % (fn, a, hit))
            if k in REQUIRED.get(fn, ()):
                R.count("required_arguments")
                if not hit:
                    for b in bad:
                        R.violation("%s:%d:accepted" % (fn, k), "%s(%s): with a null argument the return at %s is not a failure" % (fn, a, b.split(" <-")[0]))
    R.need("pointer_parameters", 100)
    R.need("required_arguments", 40)
    R.assume("Routines outside the analysed source dereference the arguments the table in msa/nullness.py lists.")
    return R.finish()
