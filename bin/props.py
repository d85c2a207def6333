"""Which models and drivers decide which property."""

CHECKS = {}


def check(prop, *targets):
    def deco(fn):
        CHECKS[prop] = (fn, list(targets))
        return fn
    return deco


def node(c, profile, q, t, depth_q=None, depth_t=None, nodes=6, length=40):
    if depth_q:
        c.explore("node_driver", "NodeExplore", "explore_" + profile,
                  {"PROFILE": profile, "DEPTH": c.n(depth_q, depth_t), "MAXNODES": nodes},
                  timeout=c.n(300, 3000))
    c.traces("node_driver", "NodeTrace", ["random", profile, c.seed, c.n(q, t), length],
             8, "random_" + profile, tlc_timeout=c.n(400, 3000), timeout=c.n(200, 580))


@check("C01", "node_driver", "schemas_driver")
def c01(c):
    fun(c, "schemas_driver", "Schemas", "all", 8000, 150000)
    node(c, "tree", 1400, 30000, 3, 4)
    node(c, "wide", 400, 8000, length=60)


@check("C02", "node_driver")
def c02(c):
    node(c, "ro", 1600, 30000)


@check("C03", "node_driver", "forms_driver")
def c03(c):
    node(c, "own", 1600, 30000, 3, 3)
    fun(c, "forms_driver", "Forms", "set", 15000, 150000)


@check("C04", "node_driver")
def c04(c):
    node(c, "upd", 1600, 30000, 3, 4)


def fun(c, driver, spec, profile, q, t, shards=8, tag=None, **kw):
    return c.traces(driver, spec + "Trace", ["random", profile, c.seed, c.n(q, t)], shards,
                    tag or (spec + "_" + profile), history_op=None, tlc_timeout=c.n(400, 3000), **kw)


@check("C05", "diff_driver")
def c05(c):
    c.explore("diff_driver", "DiffExplore", "all_pairs", {}, fields=("out",))
    fun(c, "diff_driver", "Diff", "all", 24000, 300000)


@check("C06", "array_driver", "forms_driver")
def c06(c):
    fun(c, "array_driver", "Arrays", "views", 40000, 200000)
    fun(c, "forms_driver", "Forms", "get", 15000, 150000)


@check("C07", "array_driver")
def c07(c):
    fun(c, "array_driver", "Arrays", "conv", 40000, 200000)


@check("C08", "layout_driver")
def c08(c):
    fun(c, "layout_driver", "Layout", "bind", 10000, 150000)
    fun(c, "layout_driver", "Layout", "files", 3000, 30000)


@check("C10", "layout_driver", "schemas_driver")
def c10(c):
    fun(c, "schemas_driver", "Schemas", "all", 6000, 100000)
    fun(c, "layout_driver", "Layout", "text", 12000, 150000)


@check("C09", "text_driver")
def c09(c):
    fun(c, "text_driver", "Text", "all", 12000, 150000)


@check("C12", "io_driver")
def c12(c):
    c.traces("io_driver", "IoTrace", ["random", "files", c.seed, c.n(1500, 30000)], 8, "files",
             tlc_timeout=c.n(400, 3000), timeout=c.n(200, 900))


@check("C13", "io_driver")
def c13(c):
    c.traces("io_driver", "IoTrace", ["random", "handle", c.seed, c.n(2000, 40000)], 8, "handle",
             tlc_timeout=c.n(400, 3000), timeout=c.n(200, 900))


@check("C14", "slab_driver")
def c14(c):
    c.traces("slab_driver", "SlabTrace", ["random", "slab", c.seed, c.n(3000, 60000)], 8, "slab",
             tlc_timeout=c.n(400, 3000), timeout=c.n(200, 900))


def mpi(c, driver, spec, profile, sizes, q, t, shards=2, **kw):
    limit = c.n(80, 900)
    kw.setdefault("extra_env", {})["VH_ALARM"] = limit - 10
    for n in sizes:
        if not c.traces(driver, spec, ["random", profile, c.seed, c.n(q, t)], shards, "%s_%d" % (profile, n),
                        launcher=["mpirun", "-n", str(n)], history_op=None,
                        tlc_timeout=c.n(400, 3000), timeout=limit, **kw):
            return


@check("C16", "mpi_driver")
def c16(c):
    mpi(c, "mpi_driver", "MpiTrace", "p2p", [2, 1, 3, 4], 2500, 30000)


@check("C17", "mpi_driver")
def c17(c):
    mpi(c, "mpi_driver", "MpiTrace", "coll", [2, 1, 3, 4], 2500, 30000)


@check("C18", "rel_driver")
def c18(c):
    fun(c, "rel_driver", "Rel", "all", 20000, 300000)


@check("C19", "mesh_driver")
def c19(c):
    fun(c, "mesh_driver", "MeshConv", "conv", 8000, 100000)


@check("C20", "mesh_driver")
def c20(c):
    fun(c, "mesh_driver", "MeshConv", "derive", 3000, 40000)


@check("C21", "mat_driver")
def c21(c):
    fun(c, "mat_driver", "Mat", "all", 20000, 150000)


@check("C15", "bpio_driver", "bpio_mpi_driver")
def c15(c):
    if not c.traces("bpio_driver", "BpFilesTrace", ["random", "files", c.seed, c.n(320, 8000)], 8, "files",
                    tlc_timeout=c.n(400, 3000), timeout=c.n(200, 900)):
        return
    for n in (2, 3, 1, 4):
        if not c.traces("bpio_mpi_driver", "BpFilesTrace", ["random", "files", c.seed, c.n(40, 1500)], 4, "mpi_%d" % n,
                        launcher=["mpirun", "-n", str(n)], tlc_timeout=c.n(400, 3000), timeout=c.n(80, 900),
                        extra_env={"VH_ALARM": c.n(70, 890)}):
            return


@check("C22", "part_driver", "part_mpi_driver")
def c22(c):
    if fun(c, "part_driver", "Part", "all", 1600, 40000):
        mpi(c, "part_mpi_driver", "PartTrace", "all", [2, 3, 1, 4], 250, 8000, shards=8)
        fun(c, "part_driver", "Part", "emptymat", 8, 8)


@check("C23", "forms_driver", "types_driver")
def c23(c):
    fun(c, "types_driver", "Types", "all", 16000, 200000)
    fun(c, "forms_driver", "Forms", "all", 40000, 400000)


@check("C24", "verify_driver")
def c24(c):
    fun(c, "verify_driver", "Verify", "all", 24000, 300000)


@check("C25", "flat_driver", "flat_mpi_driver")
def c25(c):
    if fun(c, "flat_driver", "Flat", "all", 8000, 100000):
        mpi(c, "flat_mpi_driver", "FlatTrace", "all", [2, 3, 1, 4], 800, 12000, shards=4)


@check("C26", "adj_driver", "adj_mpi_driver")
def c26(c):
    if fun(c, "adj_driver", "Adj", "any", 3200, 40000):
        mpi(c, "adj_mpi_driver", "AdjTrace", "any", [2, 3, 1, 4], 320, 4000, shards=4)


@check("C27", "csv_driver")
def c27(c):
    fun(c, "csv_driver", "Csv", "all", 24000, 300000)
