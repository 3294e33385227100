def q(pid, exe="h_query", **k):
    return dict(level="model_checking", parts=[dict(exe=exe, targets=["h:" + exe], args=[pid] if exe in ("h_query", "h_admin") else [], **k)])


CHECKS = {
    "C01": q("C01", "h_update"),
    "C02": q("C02"),
    "C03": q("C03"),
    "C04": q("C04"),
    "C05": q("C05", "h_expr"),
    "C06": q("C06", "h_crash"),
    "C07": q("C07", "h_txn"),
    "C08": q("C08", "h_terms"),
    "C09": q("C09", "h_results"),
    "C10": q("C10", "h_path"),
    "C12": q("C12", "h_store"),
    "C14": q("C14", "h_admin"),
    "C15": q("C15", "h_admin"),
    "C13": q("C13", "h_sched", variant="sched"),
    "C11": dict(level="model_checking", parts=[dict(exe="h_tools", targets=["h:h_tools", "so:toolshim"] + ["main:" + t for t in
            ("ginit", "gbuild", "gadd", "gsub", "gquery", "gexport", "gdrop", "gbackup", "grestore", "gshow")], args=[])]),
}
