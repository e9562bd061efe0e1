"""What each check runs: harness configurations, level and stated bounds."""

def solver_jobs(prop):
    d = [f"-DPROP={prop}"]
    return [
        {"name": "small", "src": "solver.cpp", "defs": d, "args": ["--mode", "small"]},
        {"name": "struct", "src": "solver.cpp", "defs": d, "args": ["--mode", "struct"]},
        {"name": "params", "src": "solver.cpp", "defs": d, "args": ["--mode", "params"]},
        {"name": "big", "src": "solver.cpp", "defs": d, "args": ["--mode", "big"], "hang": 100},
        {"name": "rng", "src": "solver.cpp", "defs": d + ["-DCHOOSER"], "args": ["--mode", "rng"], "optional": True},
    ]

CHECKS = {}
for n in (1, 2, 3, 7):
    CHECKS[f"C{n:02d}"] = {"level": "model_checking", "jobs": solver_jobs(n), "bounds": "TODO"}
CHECKS["C01"]["jobs"].append({"name": "mem", "src": "solver.cpp", "variant": "asan", "defs": ["-DPROP=1"], "args": ["--mode", "mem"]})
CHECKS["C04"] = {"level": "model_checking", "bounds": "TODO", "jobs": [{"name": "warm", "src": "warm.cpp"}]}
CHECKS["C05"] = {"level": "model_checking", "bounds": "TODO", "jobs": [{"name": "points", "src": "expiry.cpp", "args": ["--mode", "points"]}, {"name": "units", "src": "expiry.cpp", "args": ["--mode", "units"]}]}
CHECKS["C06"] = {"level": "model_checking", "bounds": "TODO", "jobs": [{"name": "single", "src": "det.cpp", "args": ["--mode", "single"]}, {"name": "pairs", "src": "det.cpp", "args": ["--mode", "pairs"]}]}

for n in (8, 9, 10):
    CHECKS[f"C{n:02d}"] = {"level": "model_checking", "bounds": "TODO", "jobs": [{"name": "greedy", "src": "greedy.cpp", "defs": [f"-DPROP={n}"]}]}
for n in (11, 12, 13):
    CHECKS[f"C{n:02d}"] = {"level": "model_checking", "bounds": "TODO", "jobs": [{"name": "fixing", "src": "fixing.cpp", "defs": [f"-DPROP={n}"]}]}
CHECKS["C14"] = {"level": "model_checking", "bounds": "TODO", "jobs": [{"name": "subgrad", "src": "subgrad.cpp"}]}
CHECKS["C15"] = {"level": "model_checking", "bounds": "TODO", "jobs": [{"name": "reuse", "src": "reuse.cpp"}]}
for n in (16, 17, 18):
    CHECKS[f"C{n:02d}"] = {"level": "model_checking", "bounds": "TODO", "jobs": [
        {"name": "ops", "src": "containers.cpp", "defs": [f"-DPROP={n}"]},
        {"name": "mem", "src": "containers.cpp", "variant": "asan", "defs": [f"-DPROP={n}"]}]}

CHECKS["C19"] = {"level": "model_checking", "bounds": "TODO", "jobs": [{"name": "layouts", "src": "parsing.cpp", "defs": ["-DPROP=19"]}]}
CHECKS["C20"] = {"level": "model_checking", "bounds": "TODO", "jobs": [
    {"name": m, "src": "parsing.cpp", "variant": "asan", "defs": ["-DPROP=20"], "args": ["--mode", m]} for m in ("mut", "mut2", "bytes", "sol")]}
CHECKS["C21"] = {"level": "model_checking", "bounds": "TODO", "jobs": [
    {"name": "round", "src": "solfile.cpp", "args": ["--mode", "round"]},
    {"name": "fault", "src": "solfile.cpp", "args": ["--mode", "fault"]}]}
CHECKS["C22"] = {"level": "model_checking", "bounds": "TODO", "jobs": [
    {"name": "strings", "src": "strings.cpp", "args": ["--mode", "all"]},
    {"name": "mem", "src": "strings.cpp", "variant": "asan", "args": ["--mode", "mem"]}]}
CHECKS["C23"] = {"level": "model_checking", "bounds": "TODO", "jobs": [{"name": "cli", "src": "cli.cpp"}]}
CHECKS["C27"] = {"level": "model_checking", "bounds": "TODO", "jobs": [{"name": "units", "src": "units.cpp"}]}
CHECKS["C28"] = {"level": "model_checking", "bounds": "TODO", "jobs": [{"name": "rng", "src": "rng.cpp"}]}
CHECKS["C29"] = {"level": "model_checking", "bounds": "TODO", "jobs": [
    {"name": m, "src": "casts.cpp", "variant": "dbg", "args": ["--mode", m]} for m in ("casts", "helpers")]}

TYPES = [("int8_t", "uint8_t", "float"), ("uint8_t", "int8_t", "double"), ("int16_t", "uint8_t", "float"), ("uint16_t", "int16_t", "double"),
         ("int32_t", "int16_t", "float"), ("uint32_t", "uint16_t", "long double"), ("int32_t", "int32_t", "double"), ("int64_t", "uint32_t", "float"),
         ("uint64_t", "int64_t", "long double"), ("int8_t", "uint64_t", "double"), ("uint64_t", "int8_t", "float")]


def type_jobs():
    out = []
    for c, r, f in TYPES:
        d = [f"-DCFT_CIDX_TYPE={c}", f"-DCFT_RIDX_TYPE={r}", f"-DCFT_REAL_TYPE={f}"]
        n = "-".join((c, r, f)).replace("_t", "").replace(" ", "")
        for v in ("rel", "dbg"):
            out.append({"name": f"{n}-{v}", "src": "types.cpp", "variant": v, "defs": d, "shards": 2, "hang": 60})
    for v in ("rel", "dbg"):
        out.append({"name": f"tagged-{v}", "src": "types.cpp", "variant": v, "defs": ["-DTAGGED"], "shards": 2, "hang": 60})
    return out


CHECKS["C30"] = {"level": "model_checking", "bounds": "TODO", "jobs": type_jobs()}

PYVENV = "/opt/vp/venv/bin/python"


def py_jobs(*modes):
    return [{"name": m, "kind": "python", "python": PYVENV, "needs": ["py", "oracle"], "src": "pysolver.py", "args": ["--mode", m]} for m in modes]


CHECKS["C25"] = {"level": "model_checking", "bounds": "TODO", "jobs": py_jobs("histories", "params")}
CHECKS["C26"] = {"level": "model_checking", "bounds": "TODO", "jobs": py_jobs("invalid")}
CHECKS["C24"] = {"level": "model_checking", "bounds": "TODO", "jobs": [
    {"name": m, "kind": "python", "needs": ["accft", "accft-asan", "iofault"], "src": "accft.py", "args": ["--mode", m]}
    for m in ("valid", "options", "invalid", "faults")]}

# ---------------------------------------------------------------- stated bounds
SMALL = "every instance up to column order with "
FAM = "structured families: circulants, vertex cover of every graph, complete designs, spoke (star) instances, replicated blocks"
for n in (1, 2, 3, 7):
    CHECKS[f"C{n:02d}"]["bounds"] = {
        "quick": SMALL + "<=2 rows x <=3 columns and 3x3 (costs {0,1,2.5}, empty columns too), 3x4, 4x3, 4x4, 3x5 (2-3 costs), 3x3 with costs {0.1,1,7.3,1000}, "
                 "x 2-5 parameter settings; circulants n<=8, all graphs on 4 and 5 vertices, designs n<=7, stars 10..12, replicated blocks of 31, 60, 81, 100, 210 rows; "
                 "full parameter grid (epsilon, iterations, alpha, beta, fixing fraction, exits, seed) on 3 families; random generator replaced: 4 base output patterns x every single deviation at every draw",
        "thorough": "additionally 4x4 (3 costs), 4x5, 5x4, 3x6, circulants n<=11, graphs on 6 vertices, designs n<=9, stars <=15, blocks up to 400 rows at 3 scales, two deviations of the random outputs"}
    CHECKS[f"C{n:02d}"]["assumptions"] = ["costs are non-negative and finite with sums representable in the real type", "single-threaded library: the schedules are the random outputs and clock readings", "a run of a quick-tier case that uses more than 25 s of CPU time counts as not terminating (normal cases need milliseconds)"]
CHECKS["C04"]["bounds"] = {"quick": SMALL + "<=2 rows x 3 columns, 3x3 (2 cost alphabets), 3x4, circulants n<=7, graphs on 4 vertices x every feasible starting cover (both orders) x 2 settings; x every clock observation at which the limit may expire on 2x2, 3x3, circulants of 5, graphs on 4 vertices",
    "thorough": "3x4 with 3 costs, 4x4, circulants n<=9, graphs on 5 vertices; expiry also on circulants n<=7 and graphs on 5 vertices"}
CHECKS["C04"]["assumptions"] = CHECKS["C01"]["assumptions"][:2]
CHECKS["C05"]["bounds"] = {"quick": "1x3, 2x2, 3x3, 3x4, circulants 5-6, graphs on 4 vertices, design 5-6, full and three-phase algorithm: every clock observation as expiry point; default iteration count: first 1000 points; 31/60-row blocks: first 40 points; limits of 0-10 s under a virtual clock of 1 and 37 ms per observation",
    "thorough": "circulants <=8, graphs on 5 vertices, 4x4, up to 20000 points with default iterations, 400 on the blocks"}
CHECKS["C05"]["assumptions"] = ["time is observed only through the process clock, which the harness replaces", "'promptly' is at most 40 further clock observations and 45 progress lines after expiry (the code needs 14 and 30)"]
CHECKS["C06"]["bounds"] = {"quick": "2x3, 3x3, 3x4, circulants <=7, graphs on 4 vertices, designs <=7, stars, 31/60-row blocks x 2 seeds x {full, three-phase}: 4 heap/stack fill patterns, 7 verbosity levels, another clock; every ordered pair of runs over a pool of instances in one process",
    "thorough": "larger families; every ordered triple of runs"}
CHECKS["C08"]["bounds"] = {"quick": SMALL + "1x3, 2x3, 3x3 (2-3 costs), 3x4, circulants <=11, designs, graphs on 4 vertices, blocks, stars <=13 x all multiplier vectors over {0,0.5,2} or sub-alphabets x all starting selections (capped on large ones) x cutoffs around every reachable cost x all size caps",
    "thorough": "4-value multipliers, 4x4, circulants <=16, stars <=24, several size caps everywhere"}
CHECKS["C09"]["bounds"] = dict(CHECKS["C08"]["bounds"])
CHECKS["C10"]["bounds"] = {"quick": "every covering and partial selection (as the redundancy step receives it) of 2x3, 3x4, 3x5, 4x4, circulants 5-13, edge covers of graphs, designs, stars 2-22 (up to 22 redundant columns) x all cutoffs around every cost of a sub-selection",
    "thorough": "4x5, 4x4 with 3 costs, circulants <=17, all 6-vertex edge covers"}
CHECKS["C11"]["bounds"] = {"quick": "every sequence of column sets fixed one after the other until nothing is left on 1x2..3x3 with empty columns, 3x4, 4x4, 5x4, 3x5, graphs on 4 vertices, circulants 5; sequences of <=2 sets on circulants 6-7 and designs 5-6; unsorted columns", "thorough": "3x4 with empty columns, 4x5; sequences of <=4 sets"}
CHECKS["C12"]["bounds"] = {"quick": "all multiplier vectors over {0,0.5,2} on 1x3, 2x3, 3x3, 3x4, 4x4; structured multipliers on circulants <=8, graphs, designs; blocks of 31, 200, 400, 600 rows; repeated steps until no row is left", "thorough": "4x4 and 3x4 with larger alphabets, circulants <=10, blocks up to 800 rows, 20 repeated steps"}
CHECKS["C13"]["bounds"] = {"quick": "all multiplier vectors over 3-5 values on 1x3..3x4, 1x7, 1x6, many columns per row (2 rows x 7-11 columns, 3 rows x 8-16 columns); structured multipliers on circulants <=10, designs, blocks of 31, 60, 200 rows", "thorough": "2 rows x 12 columns, 3 rows x 10, circulants <=12"}
CHECKS["C14"]["bounds"] = {"quick": "1x3, 2x3, 3x3, 3x4 x all multiplier vectors over {0,0.5,2} (also huge multipliers) x cutoffs {near, at, above optimum} x step sizes x stopping settings; circulants <=6, graphs on 4 vertices, designs, blocks of 31, 60, 90 rows", "thorough": "3x3 with 3 costs, 4x4, circulants <=8"}
CHECKS["C15"]["bounds"] = {"quick": "every sequence of <=4 calls (greedy, pricing, column fixing) or <=3 calls (subgradient, three-phase) over a menu of instances x arguments of different sizes and early-ended calls, compared with a fresh object after each", "thorough": "larger menu, one call more"}
CHECKS["C16"]["bounds"] = {"quick": "all sequences of cover/uncover/reset over all subsets of 1, 2, 3 elements to depth 6, 5, 4; every counter state of 4 elements up to 4 x every operation; the same under address/UB sanitizers", "thorough": "depth 8, 6, 5; counters up to 6"}
CHECKS["C17"]["bounds"] = {"quick": "capacities 1-5: all sequences of try_insert/insert/clear to depth 6-7 over 3-4 keys; keys read through a reference, capacities 1-10, up to 12 elements", "thorough": "depth 8, larger key alphabets"}
CHECKS["C18"]["bounds"] = {"quick": "all sequences of 5 operations out of 14 (append, copy from another instance, clear, rebuild rows with 4, 5, 7 rows); all small matrices for the transposition and the reduced costs; also under address/UB sanitizers", "thorough": "sequences of 6 operations"}
CHECKS["C19"]["bounds"] = {"quick": "all instances of 1-3 rows x 1-3 columns over several cost alphabets (fractional, large, tiny) and structured ones x all layouts of RAIL/SCP/CVRP (line ends, separators, leading/trailing blanks, wrapping, number forms, entry order) x every starting cover; MPS: every row order x two full products of layout settings", "thorough": "3x4 instances and larger"}
CHECKS["C20"]["bounds"] = {"quick": "from 5+ base files per format: every truncation, byte replacement, token replacement by 30+ critical values, removal, doubling, swap, line edits; pairs of mutations of the smallest files; every file of <=7 bytes over {0,1,2,space,newline,-}; every sequence of <=4-6 lines from a pool; every starting-solution file of that kind; under address/UB sanitizers", "thorough": "all pairs of mutations, files of <=9 bytes, one more line"}
CHECKS["C21"]["bounds"] = {"quick": "all index lists of <=3 boundary values x 9 costs, 16-bit sweep of all float patterns x 3 fillings, lists up to 100000 columns; every byte position x {4 errno values, short write, EINTR, close failure, RLIMIT_FSIZE} for 8 solutions around the stream buffer", "thorough": "20-bit float sweep, longer solution"}
CHECKS["C22"]["bounds"] = {"quick": "all strings of <=6 characters over 9-10 character alphabets (white space, NUL, high bytes, digits, signs); all ordered pairs of strings <=3 over 7 bytes; boundary values of every type in 45 contexts; reals of every exponent; the same to length 5 under sanitizers", "thorough": "length 7"}
CHECKS["C23"]["bounds"] = {"quick": "all argument lists of <=3 tokens over all options and 15 values, all lists of <=6 over 13 tokens, every option x 34 values x 34 overriding values, every triple of options, every instance path of <=7 characters over {a . / \\ b}", "thorough": "lists of 7 tokens, paths of 9 characters"}
CHECKS["C24"]["bounds"] = {"quick": "the accft program built from /repo: all instances of <=2x2 and 2x3, 4 structured ones x 4 formats x unit costs x starting covers; all option pairs in both orders and one unusable option with every other one; every truncation/token mutation of 3 files per format (also sanitizer build); every starting-solution list of <=3 columns; every open/read/write/close of the file streams failing in every way, pairs after partial transfers; unusable outputs",
    "thorough": "3x3 instances, all structured ones, option triples, pairs of faults on files of several blocks"}
CHECKS["C24"]["assumptions"] = ["standard error can be written", "faults of the file streams are injected at the libc calls of libstdc++ (fopen, read, write, writev, fclose)"]
CHECKS["C25"]["bounds"] = {"quick": "all histories of <=5 calls over 10 calls (6 sets, 2 solves, 2 files), all placements of solves while adding all sets in every order, every file loaded at every point; 24 instances x 19 parameter settings", "thorough": "histories of 6 calls; more instances and seeds"}
CHECKS["C25"]["assumptions"] = ["the C++ solver is right (C01-C05): the reference model takes its answers from it, plus an independent optimum"]
CHECKS["C26"]["bounds"] = {"quick": "30 invalid calls at every position of every history of <=4 calls over 7 calls; every ordered pair of invalid calls between valid ones", "thorough": "histories of <=5 calls"}
CHECKS["C27"]["bounds"] = {"quick": "1x2, 2x2, 2x3, 3x3, circulants <=7 in 4 formats x no start and every starting cover (in a file and inside CVRP files)", "thorough": "3x3 with 3 costs, 3x4, circulants <=9"}
CHECKS["C28"]["bounds"] = {"quick": "canonical reals for every output of 8-16-bit generators and a 24-bit sweep of 32/64-bit outputs at boundary fillings; all pairs of interval ends x boundary outputs; every int8 range x every residue; boundary ranges of wider types; coins for 14 probabilities x all outputs of small generators; 5 generator types x seeds (256 + all bit patterns) x copies after every prefix <=6", "thorough": "finer sweeps, 4096 seeds"}
CHECKS["C29"]["bounds"] = {"quick": "every ordered pair of 13 numeric types x all values (8/16-bit) or boundary values; minimum/maximum of two and three mixed-type arguments over boundary values; clamp over all small triples; all sequences of small length for the range helpers, sorting and partial sorting", "thorough": "longer sequences"}
CHECKS["C30"]["bounds"] = {"quick": "11 combinations of index and real types plus wrapped scalars x {release, checked} builds: instances at the limits of the index types (rows and columns), 2x3, 3x3, circulants <=7, designs, stars, blocks", "thorough": "limits up to 70000 rows/columns, 3x4, graphs on 5 vertices"}
CHECKS["C30"]["assumptions"] = ["checked builds may stop at the library's own exact-cost assertions because of rounding (counted, not a violation)"]
