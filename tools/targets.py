# harness binary -> what it is built from.  repo: paths under /repo/src; shim: under /verif/shim; harness: under /verif/harness
SHIM = ["butil.cc", "bthread.cc", "brpc.cc", "braft.cc", "rocksdb.cc", "stubs.cc"]


def T(*harness, **kw):
    return dict(dict(harness=list(harness), shim=SHIM, repo=["@core"]), **kw)


NAC = ["-fno-access-control"]
TARGETS = {
    "h_codec": T("h_codec.cc"),
    "h_kv": T("h_kv.cc", flags=NAC),
    "h_txn": T("h_txn.cc", flags=NAC),
    "h_util": T("h_util.cc", flags=NAC),
    "h_log": T("h_log.cc", flags=NAC),
    "h_region": T("h_region.cc", flags=NAC),
    "h_coord": T("h_coord.cc", flags=NAC, repo=["@core", "server/version_service.cc"]),
}

# property -> harness binary and run options
PROPS = {
    "C01": dict(bin="h_codec"), "C02": dict(bin="h_codec"), "C03": dict(bin="h_codec"), "C04": dict(bin="h_codec"),
    "C05": dict(bin="h_kv"), "C06": dict(bin="h_kv"), "C07": dict(bin="h_kv"),
    "C12": dict(bin="h_txn"), "C13": dict(bin="h_txn"), "C15": dict(bin="h_txn"), "C16": dict(bin="h_txn"),
    "C08": dict(bin="h_util"), "C09": dict(bin="h_util"), "C10": dict(bin="h_util"), "C11": dict(bin="h_util"),
    "C25": dict(bin="h_log"),
    "C26": dict(bin="h_region"), "C27": dict(bin="h_region"),
    "C20": dict(bin="h_coord"), "C21": dict(bin="h_coord"), "C22": dict(bin="h_coord"),
}
