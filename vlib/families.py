"""What decides each property: driver families, trace specifications, constraints in force, model checks."""

READ = ["result", "bytes", "advance", "eof", "reference", "others", "handles", "errtrue", "errclean"]
CRCS = ["crcs known", "crcs exact", "crcs once", "crcs true"]


def reader(driver, enforce, **kw):
    return dict(driver=driver, module="TraceReader", enforce=enforce, **kw)


def builder(driver, enforce, **kw):
    return dict(driver=driver, module="TraceBuilder", enforce=enforce, **kw)


WEB = ["response", "result", "announced", "bytes", "advance", "eof", "others", "handles", "pending", "errshown", "errtrue", "errclean",
       "reference", "crcfields"]


def web(driver, enforce, **kw):
    return dict(driver=driver, module="TraceWeb", enforce=enforce, **kw)


BACK = WEB + ["crcs known", "crcs exact", "crcs once", "crcs true", "handback", "stands", "size known", "closed", "idle", "one"]
HEADERS = {"none", "byte", "middle", "suffix", "rest", "all", "bad", "beyond"}


FILES = ["delivered", "anywhere", "names", "content", "times", "attrs", "format", "checksums"]


def fs(driver, enforce, **kw):
    return dict(driver=driver, module="TraceFs", enforce=enforce, **kw)


# Models of how readers work (spec/ZipReader.tla), checked against what is permitted (spec/ZipStream.tla)
PLAIN = dict(Pick={2}, Caps={1, 40, 300}, ReadSize=2, Cuts={1, 8}, Waits=False, Failures=0, Seeks="none", AsStream=False,
             Copies=0, Headers=set(), MaxCalls=0, Emits=False, Flaws=set())


def zr(name, enforce, what, flaw=None, by=None, live=False, emit=0, tiers=("quick", "thorough"), **consts):
    """One run of TLC on the model of the reader. With a flaw, the constraints have to object to it."""
    m = dict(name=name, module="ZipReader", archs="model-archs.ndjson", enforce=enforce, what=what, tiers=tiers,
             consts={**PLAIN, **consts, "Flaws": {flaw} if flaw else set()}, check=[("VIEW", "View"), ("INVARIANT", "Permitted")])
    if flaw:
        m["violates"] = "Invariant Permitted"
        m["what"] = f"has to be rejected: {flaw}"
        if by:
            m["by"] = by
    if live:
        m["spec"] = "FairSpec"
        m["check"] = [("VIEW", "View"), ("INVARIANT", "Permitted"), ("PROPERTY", "Delivers")]
    if emit:
        m["consts"].update(MaxCalls=12, Emits=True)
        m.update(simulate=emit, depth=600, check=[("INVARIANT", "Permitted"), ("INVARIANT", "Emit")],
                 what=m["what"] or "random behaviours, replayed into the real code")
    return m


def arith():
    """The reader's arithmetic (spec/ReaderArith.tla) over integers of any size: an inductive invariant, and flaws it rejects"""
    def run(name, init, length, what, **kw):
        return dict(name="arith-" + name, module="ReaderArith", init=init, length=length, what=what, cinit="CInit" + kw.get("flaw", ""), **kw)
    flaws = {"Staged": "what was skipped in the staging buffer is skipped again", "Order": "parts overtake the staging buffer",
             "Wait": "waiting forgets what was delivered", "Search": "the search finds the next entry",
             "Seek": "a seek keeps what was processed", "Tail": "the tail of the staging buffer is dropped"}
    return [run("init", "Init", 0, "what is delivered comes from the position, for sizes of any magnitude: holds initially"),
            run("step", "IndInit", 1, "what is delivered comes from the position, for sizes of any magnitude: every step keeps it")] + [
        run(k, "IndInit", 1, f"has to be rejected: {v}", flaw=k, violates="Inv") for k, v in flaws.items()]


def drives(driver, m):
    """The behaviours of the model are for one driver"""
    return {**m, "drives": driver}


def flaws(prefix, enforce, which, **consts):
    res = []
    for i, f in enumerate(which):
        more = dict(consts)
        if isinstance(f, tuple):
            f, extra = f
            more.update(extra)
        res.append(zr(f"{prefix}-flaw{i + 1}", enforce, "", flaw=f, **more))
    return res


ARCHIVE = ["accept", "refuse", "announced", "count", "listed", "names", "content", "format", "delivered", "checksums", "times", "attrs", "time"]


def br(name, menus, what, drives=None, flaw=None, tiers=("quick", "thorough"), timeout=5000, **consts):
    """One run of TLC on the model of archive descriptions (spec/BuilderModel.tla). All its transitions are replayed by a driver."""
    c = dict(Menus=set(menus), MaxOps=4, MaxEntries=2, MaxHandles=1, Emits=bool(drives), Flaws={flaw} if flaw else set(),
             Enforced=set(ARCHIVE), KnownFindings={"stale size after removal"})
    m = dict(name=name, module="BuilderModel", consts={**c, **consts}, overrides={"Src": "TheSrc"}, what=what, tiers=tiers, timeout=timeout,
             check=[("VIEW", "View"), ("INVARIANT", "Permitted"), ("ACTION_CONSTRAINT", "Emit")])
    if drives:
        m.update(emit=True, drives=drives, workers=1)
    if flaw:
        m["violates"] = "Invariant Permitted"
        m["what"] = f"has to be rejected: {flaw}"
    return m


def bflaws(prefix, ops=4, **which):
    return [br(f"{prefix}-flaw{i + 1}", menus, "", flaw=f.replace("_", " "), MaxHandles=2, MaxOps=ops) for i, (f, menus) in enumerate(which.items())]


TREE = ["captured", "reported", "announced", "count", "noticed"] + FILES


def fr(name, what, drives=None, flaw=None, tiers=("quick", "thorough"), timeout=5000, **consts):
    """One run of TLC on the model of archives made from file systems (spec/FsModel.tla). Its histories are replayed by a driver."""
    c = dict(Kinds={"none", "dir", "f3", "out"}, RootNames={"none", "p"}, MaxAdds=1, MaxChanges=0, Singles=False, Orders={"up"},
             Emits=bool(drives), Flaws={flaw} if flaw else set(), Enforced=set(TREE), KnownFindings=set())
    m = dict(name=name, module="FsModel", consts={**c, **consts}, overrides={"Src": "TheSrc"}, what=what, tiers=tiers, timeout=timeout,
             check=[("VIEW", "View"), ("INVARIANT", "Permitted"), ("ACTION_CONSTRAINT", "Emit")])
    if drives:
        m.update(emit=True, drives=drives, workers=1)
    if flaw:
        m["violates"] = "Invariant Permitted"
        m["what"] = f"has to be rejected: {flaw}"
    return m


def fflaws(prefix, which, **consts):
    return [fr(f"{prefix}-flaw{i + 1}", "", flaw=f, **consts) for i, f in enumerate(which)]


ALLKINDS = {"none", "dir", "f0", "f2", "f3", "F3", "out", "beside", "self", "gone", "away"}

SIZES = ["result", "advance", "reference", "errtrue", "errclean", "size"]
SUMS = ["result", "advance", "reference", "errtrue", "errclean", "crcfields", "wrongcrc"] + CRCS
SOURCE = ["opens", "size", "reads", "bytes", "end", "lands", "refused"]


def sr(name, what, drives=None, flaw=None, tiers=("quick", "thorough"), **consts):
    """One run of TLC on the model of sources in memory (spec/SourceModel.tla). All its transitions are replayed by a driver."""
    c = dict(Data="616263", Caps={0, 1, 2, 9}, MaxOps=4, MaxReaders=2, Emits=bool(drives), Flaws={flaw} if flaw else set(), Holding=set(SOURCE))
    m = dict(name=name, module="SourceModel", consts={**c, **consts}, what=what, tiers=tiers, timeout=5000,
             check=[("VIEW", "View"), ("INVARIANT", "Permitted"), ("ACTION_CONSTRAINT", "Emit")])
    if drives:
        m.update(emit=True, drives=drives, workers=1)
    if flaw:
        m["violates"] = "Invariant Permitted"
        m["what"] = f"has to be rejected: {flaw}"
    return m


LAZY = ["result", "advance", "reference", "lazy", "seeknotread", "one", "opened once", "closed", "idle"]

FAMILIES = {
    "C01": dict(parts=[builder("B01", ["format", "names", "content", "checksums", "listed", "delivered"]),
                       dict(driver="bulk", module="TraceBulk", shards=2, parallel=2,
                            enforce=["format", "names", "content", "checksums", "delivered", "announced"]),
                       dict(driver="vast", module="TraceVast", shards=1, enforce=["format", "names", "content", "checksums", "delivered", "announced"])],
                models=[dict(name="render", module="RenderModel", cfg="RenderModel.cfg", tiers=("quick",),
                             what="archives of up to one entry: rendered, laid out and judged alike; of files with one byte changed (three ways), none is accepted, except where the format leaves the byte open"),
                        dict(name="render2", module="RenderModel", cfg="RenderModel2.cfg", tiers=("thorough",), timeout=5000,
                             what="as in the quick check, archives of up to two entries"),
                        dict(name="archs", module="ModelArchs", cfg="ModelArchs.cfg", writes="model-archs.ndjson",
                             what="the archives that the model of the reader reads are as rendered"),
                        br("histories", ["adds", "attrs", "crcs", "builds"], "all histories of up to 3 additions, changes and builds", drives="B01", MaxOps=3),
                        br("histories2", ["adds", "attrs", "times", "crcs", "convs", "builds"], "all histories of up to 4 additions, changes and builds",
                           drives="B01", tiers=("thorough",))]
                + bflaws("histories", no_default_time=["builds"], links_have_permissions=["attrs", "builds"])),
    "C02": dict(parts=[builder("B02", ["announced", "delivered", "count"])],
                models=[br("sizes", ["adds", "bigs", "removals", "builds"], "all histories of up to 4 additions (accepted and refused), removals and builds",
                           drives="B02"),
                        br("sizes2", ["adds", "copies", "crcs", "builds"], "all histories of up to 4 additions, changes, copies and builds",
                           drives="B02", MaxHandles=2),
                        br("sizes3", ["adds", "bigs", "copies", "removals", "builds"], "all histories of up to 4 operations, with two builders",
                           drives="B02", MaxHandles=2, tiers=("thorough",))]
                + bflaws("sizes", refused_entries_count=["adds", "bigs"], the_last_one_wins=["adds"])),
    "C03": dict(parts=[reader("C03", READ, behaviours=True),
                       dict(driver="W03", module="TraceSeek", enforce=["position", "eof", "bytes"])],
                models=[zr("seeks", READ, "every sequence of reads and of seeks to every boundary, one entry", Pick={2}, Seeks="edges"),
                        zr("seeks2", READ, "every sequence of reads and of seeks to boundaries of two entries", Pick={3}, Seeks="data", Caps={1, 40}),
                        zr("seeks3", READ, "every sequence of reads and of seeks to every boundary, up to three entries", Pick={1, 3, 4, 8, 11},
                           Seeks="edges", tiers=("thorough",), timeout=6000),
                        zr("seeks4", READ, "every sequence of reads and of seeks to every offset, one entry", Pick={2, 8}, Caps={1, 3, 29, 40, 300},
                           Seeks="all", tiers=("thorough",), timeout=6000)]
                + flaws("seeks", READ, ["seek keeps staged bytes", "seek keeps the source"], Pick={2}, Seeks="edges") + arith()
                + [zr("replay", READ, "", emit=120, Pick={1, 2, 3, 4, 8, 11}, Seeks="edges", Cuts={1, 2, 8}, Caps={1, 7, 40, 100, 300})]),
    "C04": dict(parts=[reader("C04", READ + ["pending"], behaviours=True),
                       dict(driver="W03", module="TraceSeek", enforce=["position", "eof", "bytes", "pending"])],
                models=[zr("waits", READ + ["pending"], "every schedule of waits and partial answers, one and two entries, with what comes out in the end",
                           live=True, Pick={2, 3}, Waits=True),
                        zr("waits2", READ + ["pending"], "every schedule of waits and partial answers, with seeks into data and to boundaries",
                           Pick={2, 8}, Seeks="data", Waits=True, Caps={1, 40}),
                        zr("waits3", READ + ["pending"], "every schedule of waits and partial answers, with seeks to every boundary, two and three entries",
                           Pick={3, 4, 8, 11}, Seeks="edges", Waits=True, Cuts={1, 2, 8}, tiers=("thorough",), timeout=6000)]
                + flaws("waits", READ + ["pending"], ["waiting forgets what was skipped"],
                        Pick={2}, Seeks="data", Waits=True)
                + [zr("replay", READ + ["pending"], "", emit=120, Pick={2, 3, 4, 8, 11}, Seeks="edges", Cuts={1, 2, 8}, Waits=True, Caps={1, 7, 40, 100, 300})]),
    "C05": dict(parts=[reader("C05", READ + ["errshown", "pending"], behaviours=True),
                       dict(driver="W03", module="TraceSeek", enforce=["position", "eof", "bytes", "errshown", "errtrue"])],
                models=[zr("faults", READ + ["errshown", "pending"], "two failures anywhere, waits and partial answers, with what comes out in the end",
                           live=True, Pick={2}, Waits=True, Failures=2),
                        zr("faults2", READ + ["errshown", "pending"], "two failures anywhere, with seeks into data and to boundaries, two entries",
                           Pick={3, 8}, Seeks="data", Failures=2, Caps={1, 40}),
                        zr("faults3", READ + ["errshown", "pending"], "two failures anywhere, waits, with seeks to every boundary",
                           Pick={3, 8}, Seeks="edges", Waits=True, Failures=2, Cuts={1, 2, 8}, tiers=("thorough",), timeout=6000)]
                + flaws("faults", READ + ["errshown", "pending"],
                        ["failed opening is polled again", "a failed source is opened again", "data are read in any call",
                         ("checksums are made in any call", dict(Pick={4}, Seeks="data", Caps={300})), ("failed seek is done", dict(Pick={8}, Seeks="data"))],
                        Pick={2}, Failures=1)
                + [zr("replay", READ + ["errshown", "pending"], "", emit=120, Pick={2, 3, 4, 8, 11}, Seeks="edges", Cuts={1, 2, 8}, Waits=True,
                      Failures=3, Caps={1, 7, 40, 100, 300})]),
    "C06": dict(parts=[reader("C06", SIZES, behaviours=True),
                       dict(driver="W06", module="TraceSeek", enforce=["position", "bytes", "size", "errtrue"])],
                models=[zr("sizes", SIZES, "sources that are too short or too long, every schedule of waits and partial answers, a failure",
                           Pick={5, 6, 9, 10}, Waits=True, Failures=1),
                        zr("sizes0", SIZES, "sources of the right size, with seeks to every boundary, waits and partial answers: never a mismatch",
                           Pick={2, 8}, Caps={1, 40}, Seeks="edges", Waits=True),
                        zr("sizes2", SIZES, "as above, with reads of sizes 1 to 8", Pick={5, 6, 9, 10}, Caps={1, 2, 3, 4, 5, 6, 7, 8, 400}, Cuts={1, 2, 8},
                           Waits=True, Failures=2, tiers=("thorough",), timeout=6000)]
                + flaws("sizes", SIZES, ["sizes are not compared"], Pick={5, 6, 9, 10})
                + [zr("replay0", SIZES, "", emit=80, Pick={2, 3, 4, 8, 11}, Cuts={1, 2, 8}, Waits=True, Seeks="edges", Caps={1, 7, 40, 100, 300})]
                + [zr("replay", SIZES, "", emit=120, Pick={2, 5, 6, 9, 10}, Cuts={1, 2, 8}, Waits=True, Failures=2, Caps={1, 7, 40, 100, 300})]),
    "C07": dict(parts=[reader("C07", SUMS, behaviours=True)],
                models=[zr("sums", SUMS, "checksums unknown, supplied and wrongly supplied; every schedule, with seeks into data and to boundaries",
                           Pick={3, 7, 8}, Seeks="data", Caps={1, 40}, Waits=True),
                        zr("sums2", SUMS, "copies made anywhere, and their checksums listed", Pick={7}, Caps={40}, Copies=1),
                        zr("sums4", SUMS, "as above, with copies made anywhere and their checksums listed", Pick={7}, Seeks="data", Caps={40}, Copies=1,
                           tiers=("thorough",), timeout=6000),
                        zr("sums3", SUMS, "as above, with seeks to every boundary, waits and failures", Pick={3, 7, 8, 10}, Seeks="edges",
                           Caps={1, 40, 300}, Waits=True, Failures=1, tiers=("thorough",), timeout=6000)]
                + flaws("sums", SUMS, ["checksums are not compared", "the wrong checksum is replaced"], Pick={7}, Copies=1, Caps={40})
                + [zr("replay", SUMS, "", emit=120, Pick={2, 3, 4, 7, 8, 11}, Cuts={1, 2, 8}, Waits=True, Failures=2, Caps={1, 7, 40, 100, 300},
                      Seeks="edges", Copies=1)]),
    "C08": dict(parts=[reader("C08", LAZY, behaviours=True)],
                models=[zr("lazy", LAZY, "what sources are asked for, with seeks to every boundary", Pick={2, 8}, Seeks="edges", Caps={1, 40}),
                        zr("lazy2", LAZY, "what sources are asked for, two entries, waits", Pick={3}, Seeks="data", Caps={1, 40}, Waits=True),
                        zr("lazy3", LAZY, "what sources are asked for, with seeks to every boundary, waits and failures", Pick={3, 4, 8, 11}, Seeks="edges",
                           Caps={1, 40, 300}, Waits=True, Failures=1, tiers=("thorough",), timeout=6000)]
                + flaws("lazy", LAZY, ["the source stays open after its data", "the source stays open after its checksum", "checksums of data read are forgotten",
                                       ("known checksums are no reason to seek", dict(Pick={8}))], Pick={2}, Seeks="edges", Caps={1, 40})
                + [zr("replay", LAZY, "", emit=120, Pick={2, 3, 4, 8, 11}, Cuts={1, 2, 8}, Waits=True, Failures=1, Caps={1, 7, 40, 100, 300},
                      Seeks="edges", Copies=1)]),
    "C09": dict(parts=[builder("B09", ["accept", "refuse", "announced", "count", "listed", "names", "content", "format", "delivered"])],
                models=[br("additions", ["adds", "bigs", "removals"], "all histories of up to 5 additions (accepted and refused) and removals",
                           drives="B09", MaxOps=5, MaxEntries=3),
                        br("additions2", ["adds", "bigs", "copies", "removals"], "all histories of up to 4 operations, with two builders",
                           drives="B09", MaxEntries=3, MaxHandles=2, tiers=("thorough",))]
                + bflaws("additions", refused_entries_count=["adds", "bigs"], long_names=["bigs"], the_last_one_wins=["adds"], no_limit=["bigs"])),
    "C10": dict(parts=[builder("B10", ["time", "times", "count"])],
                models=[br("times", ["times", "convs", "builds"], "all histories of up to 6 settings of time and converters for an entry",
                           drives="B10", MaxOps=6, MaxEntries=1),
                        br("times2", ["times", "convs", "copies", "builds"], "all histories of up to 4 settings for two entries or in two builders",
                           drives="B10", MaxHandles=2, tiers=("thorough",))]
                + bflaws("times", refused_times_are_lost=["times", "builds"], old_times_stay=["times", "builds"], no_default_time=["builds"],
                         converters_change_entries=["convs", "times", "builds"])),
    "C11": dict(parts=[builder("B11", ["attrs", "count"])],
                models=[br("attributes", ["attrs", "builds"], "all histories of up to 6 settings of types and permissions for an entry",
                           drives="B11", MaxOps=6, MaxEntries=1),
                        br("attributes2", ["attrs", "builds"], "all histories of up to 5 settings for two entries", drives="B11", MaxOps=5,
                           tiers=("thorough",))]
                + bflaws("attributes", no_mask=["attrs", "builds"], types_reset_permissions=["attrs", "builds"],
                         links_have_permissions=["attrs", "builds"])),
    "C12": dict(parts=[reader("C12", READ + CRCS + ["size known"], behaviours=True),
                       builder("B12", ["announced", "count", "listed", "accept", "refuse", "names", "content", "format",
                                       "checksums", "times", "attrs", "time", "delivered"])],
                models=[zr("copies", READ + CRCS, "copies made, taken over and dropped anywhere, with interleaved reads", Pick={3}, Caps={40}, Copies=1),
                        zr("copies2", READ + CRCS, "as above, with waits and a failure", Pick={2}, Caps={40, 300}, Copies=1, Waits=True, Failures=1),
                        zr("copies3", READ + CRCS, "as above, with seeks", Pick={2, 8}, Caps={1, 40}, Copies=1, Waits=True, Seeks="data",
                           tiers=("thorough",), timeout=6000),
                        zr("copies4", READ + CRCS, "as above, with two copies", Pick={2}, Caps={40}, Copies=2, tiers=("thorough",), timeout=6000)]
                + flaws("copies", READ + CRCS, ["copy forgets checksums", "copy starts over", "taking over keeps the progress",
                                                "taking over leaves the position"], Pick={2}, Caps={1, 40}, Copies=1)
                + [br("descriptions", ["copies", "crcs", "convs", "builds"], "all histories of up to 5 operations on a description and its copy",
                      drives="B12", MaxHandles=2, MaxOps=5),
                   br("descriptions2", ["adds", "copies", "crcs", "convs", "builds"], "all histories of up to 5 operations on a description and its copy",
                      drives="B12", MaxHandles=2, MaxOps=5, tiers=("thorough",))]
                + bflaws("descriptions", 5, copies_lose_the_converter=["convs", "copies", "attrs", "builds"])
                + [zr("replay", READ + CRCS, "", emit=150, Pick={2, 3, 4, 8, 11}, Cuts={1, 2, 8}, Waits=True, Failures=1, Caps={1, 7, 40, 100, 300},
                      Seeks="edges", Copies=2)]),
    "C13": dict(parts=[reader("C13", READ + ["pending", "errshown"], behaviours=True)],
                models=[zr("stream", READ + ["pending", "errshown"], "a stream made of a reader, every schedule, with what comes out in the end",
                           live=True, AsStream=True, Pick={2, 3}, Caps={20}, Waits=True, Failures=1),
                        zr("stream2", READ + ["pending", "errshown"], "as above, sizes of pieces 1 to 300, three entries", AsStream=True, Pick={3, 4, 8, 11},
                           Caps={1, 3, 20, 300}, Waits=True, Failures=2, tiers=("thorough",), timeout=6000)]
                + flaws("stream", READ + ["pending", "errshown"], ["waiting ends the stream"], AsStream=True, Pick={2}, Caps={20}, Waits=True)
                + [zr("replay", READ + ["pending", "errshown"], "", emit=120, Pick={2, 3, 4, 8, 11}, Cuts={1, 2, 8}, Waits=True, Failures=2,
                      Caps={1000}, Seeks="edges", AsStream=True)]),
    "C18": dict(parts=[dict(driver="C18", module="TraceSeek", enforce=["position", "refused", "undisturbed", "eof", "bytes"])],
                models=[dict(name="limbs", module="LimbsModel", cfg="LimbsModel.cfg",
                             what="64 bit seek arithmetic on limbs equals integer arithmetic: all positions, sizes, offsets; 4 limbs of base 2")]),
    "C19": dict(variant="sources", parts=[dict(driver="C19", module="TraceSource", enforce=SOURCE)],
                models=[sr("sources", "all histories of up to 4 operations on a source of three bytes", drives="C19", MaxReaders=1),
                        sr("sources0", "all histories of up to 4 operations on an empty source", drives="C19", Data="", Caps={0, 1}, MaxReaders=1),
                        sr("sources2", "all histories of up to 4 operations on two readers of a source", Data="6162", drives="C19"),
                        sr("sources5", "all histories of up to 6 operations on two readers of a source", Data="6162", MaxOps=6, tiers=("thorough",))]
                + [sr(f"sources-flaw{i + 1}", "", flaw=f) for i, f in enumerate(
                    ["readers share a position", "skips what did not fit", "ends one early", "current means start", "wraps around", "refused seeks rewind"])]),
    "C16": dict(parts=[fs("F16", ["captured", "reported", "announced", "count"] + FILES)],
                models=[fr("trees", "all trees of up to three objects below a directory, of eleven kinds, added with five kinds of prefixes",
                           drives="F16", Kinds=ALLKINDS, RootNames={"none", "p", "slashes", "deep", "a"}),
                        fr("trees2", "as above, with any order of listing, and added twice", Kinds={"none", "dir", "f0", "f3", "out", "beside"},
                           RootNames={"none", "p", "slashes", "a"}, MaxAdds=2, Orders={"up", "down"}),
                        fr("trees3", "added twice", drives="F16", Kinds={"none", "dir", "f3", "out", "away"}, RootNames={"none", "p", "a"}, MaxAdds=2,
                           Singles=True, tiers=("thorough",))]
                + fflaws("trees", ["links are followed", "directories without slashes", "nothing below", "prefixes as given",
                                   "the directory itself is left out"], RootNames={"none", "slashes"})
                + fflaws("root", ["links may be the root"], Kinds={"none", "away"})
                + fflaws("twice", ["names are taken over"], MaxAdds=2)),
    "C17": dict(parts=[fs("F17", ["captured", "reported", "announced", "count", "noticed"] + FILES),
                       reader("R17", ["result", "bytes", "advance", "eof", "reference", "others", "handles", "errtrue", "errclean",
                                      "crcs known", "crcs once"]),
                       reader("W17", ["result", "advance", "reference", "errtrue", "errclean", "size"])],
                models=[fr("changes", "all trees of up to three objects, added as a whole or singly, after which any one object may be replaced or removed",
                           drives="F17", Kinds={"none", "dir", "f0", "f2", "f3", "F3", "out", "self"}, RootNames={"none"}, MaxChanges=1),
                        fr("changes2", "objects added singly, with metadata obtained before or by following links, one change at any time",
                           drives="F17", Kinds={"none", "dir", "f0", "f2", "f3", "F3", "out", "beside", "self", "gone", "away"}, RootNames=set(), MaxChanges=1, Singles=True),
                        fr("changes3", "as above, with two changes and two additions", drives="F17", Kinds={"none", "dir", "f2", "f3", "out", "beside"},
                           RootNames={"none"}, MaxAdds=2, MaxChanges=2, Singles=True, tiers=("thorough",))]
                + fflaws("changes", ["what is gone is empty", "longer files are cut", "shorter files are filled", "failures end the file",
                                     "targets are read late"], Kinds={"none", "dir", "f2", "f3", "beside", "self"}, MaxChanges=1)
                + fflaws("single", ["metadata are looked up again"], Kinds={"none", "f2", "f3", "out"}, MaxChanges=1, Singles=True, RootNames=set())),
    "C14": dict(variant="web", parts=[dict(driver="range", module="TraceRange", enforce=[], behaviours=True), web("C14", WEB)],
                models=[dict(name="headers", module="HttpRangeModel", cfg="HttpRangeModel.cfg", emit=True, tiers=("quick",),
                             what="all Range headers bytes= + up to 5 of 7 symbols, for a file of 98 bytes: never no outcome, always inside of the file, definite where the meaning is evident"),
                        dict(name="headers", module="HttpRangeModel", cfg="HttpRangeModelLong.cfg", emit=True, tiers=("thorough",),
                             what="as in the quick check, up to 6 symbols")] + [zr("serve", WEB, "all responses to eight kinds of requests, by readers that have been read from before", Pick={2, 8}, Caps={40, 300}, Headers=HEADERS),
                             zr("serve2", WEB, "all responses to eight kinds of requests, sources that wait and deliver in parts, and a failure", Pick={2}, Caps={20, 300},
                                Headers=HEADERS, Waits=True, Failures=1),
                             zr("serve3", WEB, "as above, two entries, with seeks before", Pick={3, 8}, Caps={1, 20, 300}, Seeks="data",
                                Headers=HEADERS, Waits=True, Failures=1, tiers=("thorough",), timeout=6000)]
                + flaws("serve", WEB, ["bodies are not cut", "the last block is left out", "bodies have no end",
                                       "responses start where the reader is", "responses start at the beginning"], Pick={2}, Caps={40, 300}, Headers=HEADERS)
                + [drives("C14", zr("replay", WEB, "", emit=100, Pick={1, 2, 3, 4, 8, 11}, Cuts={1, 2, 8}, Waits=True, Failures=1, Caps={1000}, Seeks="edges",
                                    Headers=HEADERS))]),
    "C15": dict(variant="web", parts=[web("C15", BACK)],
                models=[zr("back", BACK, "readers lent to responses and handed back, at any point of reading, and lent again", Pick={2}, Caps={300}, Cuts={8}, Copies=2,
                           Headers={"middle", "bad"}),
                        zr("back2", BACK, "as above, wrong checksums, waits and a failure", Pick={7}, Caps={300}, Cuts={8}, Copies=1, Headers={"none", "middle"},
                           Waits=True, Failures=1),
                        zr("back3", BACK, "as above, two entries, with seeks", Pick={3, 8}, Caps={20, 300}, Copies=1, Headers=HEADERS, Seeks="data",
                           Waits=True, Failures=1, tiers=("thorough",), timeout=6000)]
                + flaws("back", BACK, ["hand-back starts over", "hand-back forgets checksums", "nothing is handed back",
                                       "sources stay open in the channel"], Pick={2}, Caps={40, 300}, Copies=1, Headers={"none", "middle"})
                + [drives("C15", zr("replay", BACK, "", emit=150, Pick={1, 2, 3, 4, 8, 11}, Cuts={1, 2, 8}, Waits=True, Failures=1, Caps={1000}, Seeks="edges",
                                    Headers=HEADERS, Copies=2))]),
}
