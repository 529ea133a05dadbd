ASSUME = ["inputs outside the enumerated bounds behave like those inside (small-scope hypothesis)",
          "g++ 13 -O1 with AddressSanitizer; out-of-bounds accesses and uninitialised reads made visible by poisoned/pattern-filled memory",
          "parallel algorithms run on a stand-in task back end that executes the leaves of every parallel region in several fixed orders"]
def parts(name, src, n, **kw): return [dict(name="%s%d" % (name, i), src=src, flags=["-DPART=%d" % i], **kw) for i in range(n)]
SCHED = ["sequentially consistent memory: interleavings of the instrumented accesses are explored, reorderings allowed by weaker memory orders are not",
         "schedules with at most the stated number of preemptions and tasks per region (checks/sched_algos.cpp); tasks of the stand-in task back end, not TBB's own scheduler",
         "inputs outside the enumerated bounds behave like those inside (small-scope hypothesis)"]
EXPL = "states = programs (input graph and parameters) enumerated; traces = complete executions of the real implementation, one per schedule explored (for scheduler units) or leaf order, each judged against the reference; transitions = single observations compared"
def sched(i, *wide): return [dict(name="sched%d%s" % (i, "w" if w else ""), src="sched_algos.cpp", mode="sched", flags=["-DPART=%d" % i, "-DWIDE=%d" % w]) for w in wide]
def with_sched(i, *units): return dict(units=list(units) + sched(i, 0), assumptions=ASSUME + SCHED[:2], explanation=EXPL)
def drv(n, name, **kw): return dict(name=name, src="c29_bench.cpp", flags=["-DDRV=%d" % n, "-I/usr/include/docopt"], libs=["-ldocopt"], **kw)
CHECKS = {
 "C29": dict(units=[drv(n, "drv_" + x) for n, x in enumerate("tools bfs bc cc pr sssp tc".split())] + [dict(name="degrees", src="c29_bench.cpp", mode="sched", flags=["-DDRV=7", "-I/usr/include/docopt"])], assumptions=ASSUME + SCHED[:2] + ["documented options only; malformed command lines and missing files are not explored", "js driver: not part of the build"], explanation=EXPL),
 "C27": dict(units=[u for i in range(6) for u in sched(i, 1)], assumptions=SCHED, explanation=EXPL),
 "C28": dict(units=sched(6, 0, 1), assumptions=SCHED, explanation=EXPL),
 "C32": dict(units=[dict(name="bits", src="c32_bits.cpp", flags=["-DPART=0"]), dict(name="bitsched", src="c32_bits.cpp", mode="sched", flags=["-DPART=1"])], assumptions=ASSUME[:2] + SCHED, explanation=EXPL),
 "C25": dict(units=[dict(name="spgemm", src="c25_spgemm.cpp", flags=["-DPART=0"])]),
 "C26": dict(units=[dict(name="jaccard", src="c25_spgemm.cpp", flags=["-DPART=1"])]),
 "C22": dict(units=[dict(name="mis", src="c22_mis.cpp")]),
 "C23": dict(units=[dict(name="mst", src="c23_mst.cpp")]),
 "C21": with_sched(5, dict(name="pr", src="c21_pr.cpp")),
 "C20": with_sched(4, dict(name="tc", src="c20_tc.cpp")),
 "C24": dict(units=[dict(name="back", src="c24_back.cpp")]),
 "C33": dict(units=[dict(name="loops", src="c33_util.cpp", flags=["-DPART=0"])]),
 "C34": dict(units=[dict(name="util", src="c33_util.cpp", flags=["-DPART=1"])]),
 "C35": dict(units=[dict(name="kcore", src="c35_kcore.cpp")]),
 "C36": dict(units=[dict(name="text", src="c36_text.cpp")]),
 "C09": dict(units=[dict(name="read", src="c09_mm.cpp", flags=["-DPART=0"])]),
 "C10": dict(units=[dict(name="write", src="c09_mm.cpp", flags=["-DPART=1"])]),
 "C12": dict(units=[dict(name="ranges", src="c12_adaptors.cpp", flags=["-DPART=0"])]),
 "C13": dict(units=[dict(name="split", src="c12_adaptors.cpp", flags=["-DPART=1"])]),
 "C11": dict(units=[dict(name="columns", src="c11_columns.cpp")]),
 "C08": dict(units=[dict(name="serial", src="c08_serial.cpp")]),
 "C19": with_sched(3, dict(name="bc", src="c19_bc.cpp"), dict(name="bcx", src="c19_bcx.cpp", flags=["-DPART=0"]), dict(name="bcxsched", src="c19_bcx.cpp", mode="sched", flags=["-DPART=1"])),
 "C18": with_sched(2, dict(name="cc", src="c18_cc.cpp")),
 "C17": with_sched(1, dict(name="sssp", src="c17_sssp.cpp")),
 "C16": with_sched(0, dict(name="bfs", src="c16_bfs.cpp")),
 "C14": dict(units=[dict(name="bfs", src="c14_ranges.cpp", flags=["-DPART=0"])]),
 "C15": dict(units=[dict(name="dfs", src="c14_ranges.cpp", flags=["-DPART=1"])]),
 "C05": dict(units=[dict(name="transforms", src="c05_transforms.cpp")]),
 "C06": dict(units=[dict(name="relabel", src="c06_relabel.cpp")]),
 "C07": dict(units=parts("inplace", "c07_inplace.cpp", 3)),
 "C03": dict(units=[dict(name="bip", src="c03_bip.cpp")]),
 "C04": dict(units=[dict(name="containers", src="c04_containers.cpp")]),
 "C01": dict(units=[dict(name="edgelist", src="c01_edgelist.cpp")]),
 "C02": dict(units=parts("csr", "c02_csr.cpp", 4)),
}
