"""What is acquired, grown and released where: the resource table of this library, and the clients of
the path executor that follow one acquired object along every path of a function (R01, R02, R03)."""
from . import model, memory, paths
from .ir import Const, Inst, Arg, fname

T = ("T",)
# call -> the returned pointer is a new object (null on failure)
ACQ_RET = {"mem:malloc": "memory block", "malloc": "memory block", "calloc": "memory block", "strdup": "string",
           "fopen": "file handle", "fdopen": "file handle", "curl_easy_init": "transfer handle",
           "curl_easy_duphandle": "transfer handle", "curl_multi_init": "transfer handle", "msr3_duplicate": "record",
           "yyjson_read_opts": "JSON document", "yyjson_mut_doc_new": "JSON document", "yyjson_doc_mut_copy": "JSON document",
           "yyjson_mut_doc_imut_copy": "JSON document", "yyjson_mut_val_imut_copy": "JSON document", "yyjson_write_opts": "JSON text",
           "yyjson_mut_write_opts": "JSON text", "yyjson_mut_doc_mut_copy": "JSON document", "yyjson_mut_val_write_opts": "JSON text",
           "yyjson_val_write_opts": "JSON text", "yyjson_read_file": "JSON document",
           "ms3_mstl_init_fd": "file reader"}
# call(old, ...) -> new object; old is consumed unless null is returned
REALLOC = {"mem:realloc": 0, "realloc": 0, "libmseed_memory_prealloc": 0, "curl_slist_append": 0}
# call(obj) -> obj re-initialised, or a new object when obj is null
INIT = {"msr3_init": "record", "mstl3_init": "trace list"}
# call(&handle) -> a new object is stored in the handle when that was null
ACQ_CELL = {"msr3_parse": {2: ("record", "keep")},
            "ms3_readmsr_r": {0: ("file reader", "keep"), 1: ("record", "clear")},
            "ms3_readmsr_selection": {0: ("file reader", "keep"), 1: ("record", "clear")},
            "ms3_readtracelist_selection": {0: ("trace list", "keep")},
            "mstl3_readbuffer_selection": {0: ("trace list", "keep")},
            "ms3_addselect": {0: ("selection list", "keep")}, "ms3_addselect_comp": {0: ("selection list", "keep")},
            "mseh_set_ptr_r": {4: ("extra header state", "keep")}, "mseh_get_ptr_r": {5: ("extra header state", "keep")},
            "mseh_add_event_detection_r": {3: ("extra header state", "keep")},
            "mseh_add_calibration_r": {3: ("extra header state", "keep")},
            "mseh_add_timing_exception_r": {3: ("extra header state", "keep")},
            "mseh_add_recenter_r": {3: ("extra header state", "keep")}}
REL_PTR = {"mem:free": 0, "free": 0, "fclose": 0, "yyjson_doc_free": 0, "yyjson_mut_doc_free": 0, "curl_easy_cleanup": 0,
           "curl_multi_cleanup": 0, "curl_slist_free_all": 0, "ms3_freeselections": 0, "pclose": 0, "close": 0}
REL_CELL = {"msr3_free": 0, "mstl3_free": 0, "mseh_free_parsestate": 0}
# when the path argument is null these release the handles
READERS = {"ms3_readmsr_r": 2, "ms3_readmsr_selection": 2, "ms3_readmsr": None}


def norm(c):
    """the JSON parser's functions exist once per file that includes them"""
    h, _, t = c.rpartition(".")
    return h if h and t.isdigit() else c


class Res(paths.Client):
    """common part: applies the resource table to the state; subclasses follow one object"""

    def isnull(self, s, x):
        f = self.X.fact(s, x)
        return f[0] == 0 == f[1]

    def nonnull(self, s, x):
        return not paths.has(self.X.fact(s, x), 0)

    def places(self, s, t=T):
        """where a pointer to (into) the object is held: SSA values and cells"""
        e = [k for k, v in s.env.items() if self.X.base(v)[0] == t]
        m = [k for k, v in s.mem.items() if self.X.base(v)[0] == t]
        return e, m

    def cell(self, s, i, n):
        """the cell a handle argument designates"""
        r, off = self.X.base(self.X.sym(s, i.args[n]))
        return (r, off, 8) if off is not None else None

    def getcell(self, s, c):
        if c is None:
            return None
        for k, v in s.mem.items():
            if k[:3] == c:
                return v
        return None

    def setcell(self, s, c, v):
        if c is None:
            return
        for k in list(s.mem):
            if k[:3] == c:
                del s.mem[k]
        if v is not None:
            s.mem[c + (None,)] = v

    def islocal(self, r):
        return self.X.objkind(r) == "alloca"
