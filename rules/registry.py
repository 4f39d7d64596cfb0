"""Which rule decides which property over which analysed roots."""
import time
import mir, graph, units
from terms import *

ASSUME = ["the MIR extracted by rustc nightly at -Zmir-opt-level=0 with overflow checks on is the program that is built",
          "the transfer functions for std, openat, the hash crates, futures-cpupool, tempfile and bytes in engine/models.py, xfer.py and xio.py describe those libraries",
          "64-bit counters incremented by lengths of data actually held or read do not overflow"]

class Ctx:
    def __init__(self, dirs, tier):
        self.dirs = dirs; self.tier = tier; self._p = {}
    @property
    def thorough(self): return self.tier == "thorough"
    def prog(self, n, crate="probe"):
        k = (n, crate)
        if k not in self._p: self._p[k] = mir.Program("%s/%s.json" % (self.dirs[n], crate))
        return self._p[k]

def graph_unit(ctx, spec, rules, pid):
    """spec: (dump, "scan", h, thr, prog) | (dump, ROOT[, opts])"""
    prog = ctx.prog(spec[0])
    name = "/".join(str(x) for x in spec[:2]) + ("/" + ",".join(str(x) for x in spec[2:]) if len(spec) > 2 else "")
    def run():
        graph.PROG[0] = prog; t = time.time()
        try:
            if spec[1] == "scan": g = units.scan(prog, *spec[2:5], **{o: True for o in (spec[5] if len(spec) > 5 else ())})
            else: g = units.analyse(prog, spec[1], **(spec[2] if len(spec) > 2 else {}))
        except Exception as e:
            if "state space limit" in str(e): return {"viols": {}, "undecided": "state space limit reached", "stats": {}}
            raise
        ta = time.time() - t
        viols = {}; states = 0; und = []
        for r in rules:
            o = r(g, pid)
            for k, v in o[0].items(): viols.setdefault(k, v)
            states += o[1]
            if not o[2]: und.append("%s: %s" % (r.__name__, "product limit reached" if o[2] is False else o[2]))
            if len(o) > 3 and o[3]: und.append(o[3])
        fns = set()
        for v in g.eng.inlined: fns.add(graph.strip_key(str(v)))
        return {"viols": viols, "undecided": "; ".join(und) or None,
                "stats": {"functions_analysed": len(fns), "graph_nodes": len(g.nodes), "graph_edges": g.edges, "abstract_events": len(g.events()),
                          "product_states": states, "calls_interpreted": g.eng.calls, "blocks_interpreted": g.eng.blocks,
                          "unmodelled_calls": {str(k): str(v)[:80] for k, v in list(g.eng.unknown.items())[:20]}, "seconds": "%.1f" % (time.time() - t)}}
    return (name, run)

def func_unit(name, f):
    """f() -> ({key: (msg, witness)}, {stat: count}[, undecided])"""
    def run():
        o = f()
        return {"viols": o[0], "stats": o[1], "undecided": o[2] if len(o) > 2 else None}
    return (name, run)

SYNC = [("thr", "scan", h, 0, p) for h in (0, 1, 2) for p in (0, 1)]
THR = [("thr", "scan", h, 1, p) for h in (0, 1, 2) for p in (0, 1)]
SEQ = [("seq", "scan", h, 0, p) for h in (0, 1, 2) for p in (0, 1)]
SCAN = THR + SYNC
EMIT = [("thr", "r_emitter")]

def scan_units(rules, extra=()):
    def f(ctx, pid):
        specs = list(THR) + list(SYNC) + list(extra) + (SEQ if ctx.thorough else [])
        for s in specs: ctx.prog(s[0])
        return [graph_unit(ctx, s, rules, pid) for s in specs]
    return f

def root_units(rules, specs):
    def f(ctx, pid):
        ss = list(specs) + ([("seq",) + tuple(s[1:]) for s in specs] if ctx.thorough else [])
        for s in ss: ctx.prog(s[0])
        return [graph_unit(ctx, s, rules, pid) for s in ss]
    return f

import text, fmtrules, scanrules as sr

PROPS = {}
def prop(pid, units, rule, explain, technique, note, level="other", **kw):
    PROPS[pid] = dict(units=units, rule=rule, explain=explain, technique=technique, note=note, level=level, **kw)

PATHS = ("Path-sensitive abstract interpretation of the compiler's monomorphic MIR, from the public entry point through every function it reaches, "
         "over symbolic values; loops are closed by fixpoint, so every path of the finite exploded graph stands for all inputs that take it. ")

SHORT = [("thr", "scan", h, t, 0, ("short",)) for t in (0, 1) for h in (0, 2)] + [("thr", "r_emitter", {"short": True})]
def units_c01(ctx, pid): return scan_units([text.footer], EMIT)(ctx, pid) + root_units([text.tee], SHORT)(ctx, pid)
prop("C01", units_c01,
     "a hasher automaton run over every path: the text fed to the hasher whose digest ends the index must equal, piece by piece, the text the destination accepted since the header line; its algorithm must be the one the header names; at a successful return the last text is that digest in full and a newline",
     PATHS + "Counts are graph nodes, edges, events and product states of the footer automaton.", "path-sensitive MIR dataflow with a hasher/text typestate automaton",
     "Covers every path of scan (3 hashes x sync/threaded x progress on/off) and of any Emitter call sequence. Trusts the library models; equality of texts is syntactic over interned symbolic pieces.")
prop("C03", scan_units([text.grammar], EMIT),
     "a grammar automaton for the v1 line format is advanced by every write to the destination on every path; a write that cannot continue the grammar, or success in a state other than end-of-footer, is a violation",
     PATHS, "path-sensitive MIR dataflow with a line-grammar automaton",
     "Every path of scan and the Emitter; texts are exact sequences of literals and symbolic pieces (escaped name, decimal, hex digest).")
def units_c04(ctx, pid): return [func_unit(*fmtrules.esc_unit(ctx))] + scan_units([fmtrules.raw], EMIT)(ctx, pid)
prop("C04", units_c04,
     "every Display/LowerHex implementation of the crate that reaches the index is classified over all 256 byte values as escape / hex / constant table; a name, path or target formatter must be exactly the escape table",
     "Abstract evaluation of each formatter for a symbolic byte string with every byte class enumerated (256 values).", "abstract interpretation of formatter MIR, byte classes enumerated",
     "Decides the text each formatter produces for every byte string; trusts the std formatting model (literal pieces, width/precision as set in the format string).")
prop("C02", scan_units([sr.block_hash], [("thr", "r_hash_file"), ("thr", "r_check_file")]),
     "per hasher object: what was fed since it was created, cloned or reset.  A digest of file data must cover one read of at most block_size bytes and nothing else: not two blocks, not data left from the previous block, not other text, not an unlimited read",
     PATHS, "path-sensitive MIR dataflow with a typestate automaton per hasher",
     "Every path of scan, hash_file and check_file. The order of blocks is that of the reads. Known finding: blake3's total_hash does not reset its hasher.")
prop("C06", scan_units([sr.sizes, sr.hash_counts], [("thr", "r_hash_file"), ("thr", "r_check_file")]),
     "the size written must be the fstat length of the opened file, exactly (the written term is evaluated over a grid of lengths); the number of digests taken between fstat and the line is evaluated from the loop recurrences and branch conditions of the analysed paths over a grid of lengths and block sizes, and must be ceil(size/block_size)",
     PATHS, "path-sensitive MIR dataflow; loop recurrences evaluated over an abstract grid of sizes",
     "Counts are decided on the grid of (length, block size) pairs listed in rules/scanrules.py, for the conditions extracted from source; sizes symbolically.")
prop("C10", scan_units([sr.exe], EMIT),
     "at every write of an `f`/`x` file line the branch facts about the mode of the opened file are evaluated for all 4096 permission patterns: `x` only with 0o100 set, `f` only without; the mode must be the opened file's",
     PATHS, "path-sensitive MIR dataflow; branch conditions enumerated over all modes",
     "Every path of scan and the Emitter, all 4096 mode values.")
prop("C11", scan_units([sr.types]),
     "at every open_file / sub_dir / read_link of a listed entry the path's facts must restrict the entry's type to file / directory / symlink; no listed entry is opened by path through a following call",
     PATHS, "path-sensitive MIR dataflow (typestate of directory entries)",
     "Every filesystem call site of the scan on every path. Trusts openat's no-follow flags for open_file/sub_dir.")
def units_c13(ctx, pid):
    return scan_units([sr.failures])(ctx, pid) + [noroots_unit(ctx, pid, t) for t in (0, 1)]
def noroots_unit(ctx, pid, thr):
    prog = ctx.prog("thr")
    def run():
        graph.PROG[0] = prog; v = {}; st = 0
        g = units.scan(prog, 0, thr, 0, noroots=True)
        o = sr.noroots(g, pid)
        return {"viols": o[0], "undecided": None, "stats": {"graph_nodes": len(g.nodes), "graph_edges": g.edges, "product_states": o[1]}}
    return ("no directories/%d" % thr, run)
prop("C13", units_c13,
     "every failing filesystem or destination call (including inside a background task) must end the scan with the error variant of that operation, without writing a footer, and never in Ok or a panic; with no directory configured the result is NoRootDirectory",
     PATHS, "path-sensitive MIR dataflow with an error-propagation automaton",
     "Every failing call on every path of scan, sync and threaded, plus the graph of a scan without directories.")
prop("C14", scan_units([sr.delivered], EMIT),
     "on every path that returns Ok: the last write completed the footer line in full, no write or flush failed, and (scan) the destination was flushed after the last write",
     PATHS, "path-sensitive MIR dataflow with a destination typestate automaton",
     "Every path of scan; any Emitter call sequence.")
import order as od
prop("C07", scan_units([od.order]),
     "entries reach open/readlink/line only through an iteration over a collection sorted ascending by the bytes of entry_name (the comparator's summary is evaluated over all pairs of a name list); subdirectories are pushed in descending order on a stack (push and pop at the same end); a directory's line is submitted after its pop and before its entries; directory lines resolve to `/` or join(parent, name)",
     PATHS, "path-sensitive MIR dataflow; collection-provenance and sort-key analysis",
     "Every path of scan, sync and threaded. Comparators are decided on a fixed list of names; sorting, grouping and deque operations are library models.")

import usage as us
def diff_unit(ctx, h, p):
    """the same rules on the synchronous and the threaded scan: one that fails for only one of them shows a difference in what is written"""
    prog = ctx.prog("thr")
    rules = [text.grammar, fmtrules.raw, sr.block_hash, sr.hash_counts, sr.exe, sr.sizes, sr.types, od.order, us.drops]
    def run():
        graph.PROG[0] = prog; v = {}; st = 0; nodes = 0
        a, b = units.scan(prog, h, 0, p), units.scan(prog, h, 1, p)
        for r in rules:
            oa, ob = r(a, "C09"), r(b, "C09"); st += oa[1] + ob[1]
            if bool(oa[0]) != bool(ob[0]):
                k, (msg, wit) = sorted((oa[0] or ob[0]).items())[0]
                v["differs/%s/%s" % (r.__name__, k)] = ("%s scanning differs: %s" % ("synchronous" if oa[0] else "threaded", msg), wit)
        return {"viols": v, "undecided": None, "stats": {"graph_nodes": len(a.nodes) + len(b.nodes), "graph_edges": a.edges + b.edges, "product_states": st, "rules_compared": len(rules)}}
    return ("sync against threaded/%d,%d" % (h, p), run)
def units_c09(ctx, pid):
    u = []
    for s in THR + ([] if not ctx.thorough else []): ctx.prog(s[0]); u.append(graph_unit(ctx, s, [us.items, us.fifo], pid))
    ps = [(h, 0) for h in (0, 1, 2)] + ([(h, 1) for h in (0, 1, 2)] if ctx.thorough else [])
    return u + [diff_unit(ctx, h, p) for h, p in ps]
prop("C09", units_c09,
     "queue discipline on every path: new items enter at one end, items are taken only at the other, an unfinished item goes back to the end it was taken from, each item taken is written or put back exactly once, and the index ends only on a path where the queue was found empty; and the rules for names, types, sizes, flags, hashes, order and line grammar are decided for the threaded and the synchronous scan and must agree",
     PATHS, "path-sensitive MIR dataflow: FIFO and linear-use automata over the task queue, rule-by-rule comparison of both writers",
     "Every path of the threaded scan with every poll outcome (ready / not ready) as a branch, i.e. every schedule the main thread can observe. Tasks share nothing but their captured values; the thread pool is a library model.")
prop("C27", lambda ctx, pid: [graph_unit(ctx, s, [us.bounded], pid) for s in THR],
     "between two submissions at least one item is taken from the queue, and an unfinished item is put back only where the facts on the path exclude a queue longer than its limit (facts evaluated over limits 0..16 and lengths up to 2^40)",
     PATHS, "path-sensitive MIR dataflow: queue-length facts at every re-queue",
     "Every path of the threaded scan; inductive argument per submission, limits are checked to come from the configuration by C23.")
prop("C32", scan_units([us.drops]),
     "linear use: each listed entry is pushed to a collection (or has type Other), each collected element is opened, read as a link, descended into, or queued, and gets exactly one line; listings and collections are iterated to their end; each directory taken from the worklist has its line written once; the scan ends only where the worklist was found empty",
     PATHS, "path-sensitive MIR dataflow with a linear-use (obligation) automaton",
     "Every path of scan, sync and threaded. Entries are tracked through vectors, sorting, grouping and deques by library models.")

import confrules as cr
def units_c22(ctx, pid):
    P = ctx.prog("thr")
    return ([func_unit(*cr.tables(P, pid)), func_unit(*cr.parse_unit(ctx, "r_parser_new"))] + root_units([cr.dispatch], [("thr", "r_hash_file"), ("thr", "r_check_file"), ("thr", "r_emitter")])(ctx, pid)
            + scan_units([cr.dispatch])(ctx, pid))
prop("C22", units_c22,
     "the constructors fix which variant is which hash; at every return of from_str and of the header parser the name that compared equal on the path must be that variant's name (no name accepted without comparison, none rejected); Display appends that name; every hasher creation and digest on a path that selected a variant uses its algorithm; the header literal names it; output_bytes is 32",
     PATHS, "path-sensitive MIR dataflow: branch facts against a name/variant/algorithm table",
     "Every return path of the tables and the header parser, every hasher of scan, hash_file, check_file and the Emitter.")
def units_c23(ctx, pid):
    ctx.prog("seq")
    return [func_unit(*cr.setters(ctx, "thr")), func_unit(*cr.setters(ctx, "seq"))] + scan_units([cr.dispatch, cr.used])(ctx, pid)
prop("C23", units_c23,
     "final heap state of every setter: exactly its own field holds the argument; the defaults; in scan: pool size and start of threads against `threads`, header and reads against `block_size`, every configured directory opened, queue limit sources against `queue_size`, stderr output only and at least once with `print_progress`",
     PATHS, "MIR dataflow: symbolic final states of setters, provenance of configuration fields in the scan",
     "Every path of every setter and of scan under each hash, thread and progress setting. Known finding: prefixes other than `/` are ignored.")

import progrules as pr
prop("C28", lambda ctx, pid: [graph_unit(ctx, s, [pr.delegate], pid) for s in [x for x in THR + SYNC if x[4] == 1] + ([x for x in SEQ if x[4] == 1] if ctx.thorough else [])],
     "call-string automaton over the writer trait: each call on the progress wrapper makes exactly one call of the same method with the same argument values on the wrapped writer (its get_hash may be asked in addition), returns that call's error when it failed and success otherwise; between them the wrapper itself neither uses the destination nor can panic",
     PATHS, "path-sensitive MIR dataflow with a call/return delegation automaton",
     "Every path of scan with progress enabled, sync and threaded, all hashes. Counter overflow is assumed away.")

def units_c31(ctx, pid):
    return ([func_unit(*fmtrules.hex_unit(ctx, "thr", range(65))), func_unit(*fmtrules.esc_unit(ctx, only=lambda got: any(ord(x) >= 0x80 for x in got)))]
            + root_units([fmtrules.unchecked], [("thr", r) for r in ("r_parser_new", "r_get_hash", "r_check_file", "r_hash_file", "r_hash_display", "r_iter_next")])(ctx, pid)
            + scan_units([fmtrules.ascii_out, fmtrules.unchecked], EMIT)(ctx, pid))
prop("C31", units_c31,
     "every hex formatter of a digest is unrolled over 32 symbolic bytes, without a precision and with each precision 0..64, and every digit is compared with the hex digit for all 256 byte values (so the string built without validation is ASCII); any other string built without validation must consist of literals, numbers and digests; no byte written to the index is outside ASCII: literals are inspected, names pass the escaping formatter whose 256-entry table is enumerated",
     "Abstract evaluation of formatter MIR with all byte values enumerated; " + PATHS, "abstract interpretation of formatter MIR, byte values enumerated; provenance of unvalidated strings",
     "All formatters of the crate that reach the index or error texts; every write of scan and the Emitter.")

import clirules as cl
def cli_unit(ctx, dump, root, rule, stop, pid):
    prog = ctx.prog(dump, "index")
    def run():
        graph.PROG[0] = prog
        g = units.analyse(prog, root, stop={stop})
        o = rule(g, pid)
        und = [] if o[2] is True else ["product limit reached"]
        if len(o) > 3 and o[3]: und.append(o[3])
        return {"viols": o[0], "undecided": "; ".join(und) or None, "stats": {"graph_nodes": len(g.nodes), "graph_edges": g.edges, "product_states": o[1], "calls_interpreted": g.eng.calls, "blocks_interpreted": g.eng.blocks}}
    return ("%s/index/%s" % (dump, root), run)

import effects as ef
def units_c12(ctx, pid):
    for d in ("thr", "seq"): ctx.prog(d), ctx.prog(d, "index")
    return [func_unit(*ef.effects_unit(ctx, d, c)) for d in ("thr", "seq") for c in ("probe", "index")] + [cli_unit(ctx, d, "run", cl.created, cl.SCAN, pid) for d in ("thr", "seq")]
prop("C12", units_c12,
     "every call site and every function passed as a value in the monomorphic program reachable from the public API and from the tool's main is matched against the operations of std, libc, openat and tempfile that create, change, link or remove filesystem objects or start processes; the tool may only create the file of its index option",
     "Call-site enumeration over the compiler's monomorphic program (whole-program reachability from all public roots). ", "effect analysis over the monomorphic call graph",
     "All functions reachable from the probe's roots (the public API) and from main. Operations of unknown crates are reported as undecided.")
prop("C08", scan_units([ef.independent]),
     "provenance of every byte fed to the destination or to a hasher: no term may contain the result of a clock, environment, identity, random, address or unordered-container source or of metadata other than length, type and mode; a branch on such a value must have equal sets of visible event sequences (writes, hash updates, filesystem accesses) on both sides; of the mode only owner-execute may decide the flag",
     PATHS, "path-sensitive MIR dataflow (taint), trace equivalence of the two sides of tainted branches",
     "Every path of scan, sync and threaded, with and without progress.")

import readrules as rr
prop("C24", root_units([rr.check_file], [("thr", "r_check_file")]),
     "automaton over stored hashes: each hash yielded must be found equal (branch fact between the whole stored hash and a digest made since the last comparison) before the next is asked for; true is returned only after the iteration ended and after a read whose branch facts admit 0 bytes only; a failed read ends in Err",
     PATHS, "path-sensitive MIR dataflow with a comparison/end-of-file typestate automaton",
     "Every path of check_file for the three hash types. What each digest covers is decided by C02, which algorithm by C22; known finding C02 (blake3 carry) changes the digests compared.")
prop("C25", root_units([rr.get_hash], [("thr", "r_get_hash")]),
     "on every path that returns a hash: the first bytes were compared with the whole magic and with a known hash name; the tail was read by exact reads at a seek position that makes the decoded digits the last 64 bytes before the final byte; the facts about the bytes before and after them admit a newline only (256 values enumerated); every pushed byte is the value of its two digits (all digit pairs enumerated) and no other byte passes as a digit; all pairs are decoded",
     PATHS, "path-sensitive MIR dataflow; branch facts about single bytes enumerated over their 256 values",
     "Every path of get_hash. Exactness of reads follows from read_exact; a read loop written by hand is reported as undecided.")

prop("C29", lambda ctx, pid: [cli_unit(ctx, d, r, f, s, pid) for d in ("thr", "seq") for r, f, s in (("run", cl.run, cl.SCAN), ("main", cl.main, "run"))],
     "on every path through the tool: the call of v1::scan gets the option variable of --hash, a thread count that evaluates to the option's plus one, print_progress as the option says on that path, and one entry per directory argument; its destination is the file of --write-index exactly if that was given; the status is 0 only after the call's result was found Ok, otherwise it is non-zero after an error was printed; main exits with that status",
     PATHS, "path-sensitive MIR dataflow from main: provenance of configuration fields, exit-status typestate",
     "Every path of the tool's run() and main(), with and without the threads feature. argparse is trusted to store what its option says; its own exit status (help, usage errors) is returned as it is.")

import parserules as ps, parse2 as p2
PARSER = ("Every path of one call of next / advance from each kind of iterator state (nothing read yet, a line kept from the call before, finished) with a valid directory or file key: "
          "by induction over calls this covers every sequence of calls. ")
def case_unit(ctx, dump, spec, rule, pid):
    prog = ctx.prog(dump)
    def run():
        try: C = ps.Case(prog, *spec)
        except Exception as e:
            if "state space limit" in str(e): return {"viols": {}, "undecided": "state space limit reached", "stats": {}}
            raise
        if C.need: return {"viols": {}, "undecided": "the iterator has no field %s" % ", ".join(C.need), "stats": {}}
        o = rule(C)
        und = [] if o[2] is True else ["product limit reached" if o[2] is False else str(o[2])]
        if len(o) > 3 and o[3]: und.append(o[3])
        return {"viols": o[0], "undecided": "; ".join(und) or None, "stats": dict(C.stats(), product_states=o[1])}
    return ("%s/%s/%s%s" % (dump, spec[0], spec[1], {None: "", 0: "/directory key", 1: "/file key"}[spec[2]]), run)
def case_units(rule, extra=None):
    def f(ctx, pid):
        ds = ["thr"] + (["seq"] if ctx.thorough else [])
        return [case_unit(ctx, d, c, rule, pid) for d in ds for c in ps.CASES] + (extra(ctx, pid, ds) if extra else [])
    return f
def root_case(ctx, dump, root, rule, **kw):
    prog = ctx.prog(dump)
    def run():
        graph.PROG[0] = prog; g = units.analyse(prog, root, **kw); o = rule(g)
        und = [] if o[2] is True else ["product limit reached" if o[2] is False else str(o[2])]
        if len(o) > 3 and o[3]: und.append(o[3])
        return {"viols": o[0], "undecided": "; ".join(und) or None, "stats": {"graph_nodes": len(g.nodes), "graph_edges": g.edges, "calls_interpreted": g.eng.calls, "blocks_interpreted": g.eng.blocks, "product_states": o[1]}}
    return ("%s/%s" % (dump, root), run)

def alloc_case(C): return p2.alloc(C.g, p2.numbers_read(C))
def alloc_root(g): return p2.alloc(g, p2.numbers_read())
prop("C16", case_units(alloc_case, lambda ctx, pid, ds: [root_case(ctx, d, r, alloc_root) for d in ds for r in ("r_parser_new", "r_get_hash", "r_parser_iter")]),
     "every allocation with a size (capacity, reserve, resize, zeroed buffer) reached from the parser: the size is traced back through calls, loops and fields; one that depends on a number parsed from the input or on the header's block size, with no branch fact bounding it by the length of text already read, is a violation",
     PATHS, "path-sensitive MIR dataflow: provenance and bounds of allocation sizes",
     PARSER + "Also the header parser and get_hash. Growth by pushing what was read is bounded by the input and is not an allocation by size.")
def header_unit(ctx, d):
    return root_case(ctx, d, "r_parser_new", lambda g: p2.header(g, ctx.prog(d)), keep_final=True)
prop("C17", case_units(p2.ends, lambda ctx, pid, ds: [header_unit(ctx, d) for d in ds]),
     "at every return that reports the end of entries (not already finished before): the facts on the path must show a line read as the footer, ended by a newline, checked to be 64 hex digits and nothing else (the byte tests are enumerated over 256 values), and a later read that found no byte; failed reads may not end in a normal end; the header is accepted only where the facts pin magic, version, a known hash, a positive block size and the newline",
     PATHS, "path-sensitive MIR dataflow with a footer/end-of-file automaton; byte tests enumerated",
     PARSER)
prop("C18", case_units(p2.delivery),
     "per path: which line is kept, which is consumed and which is returned, with the comparison facts between its entry and the key: smaller entries are consumed, an equal one is consumed and returned, at the first greater one the line and the state needed to deliver it stay; next consumes exactly one line and returns its entry or its error",
     PATHS, "path-sensitive MIR dataflow: comparison facts against the fate of each line",
     PARSER + "The comparison itself is decided by C20.")
prop("C19", case_units(ps.terminates),
     "every path of next either consumes a line of at least one byte (facts on the path) or returns with the iterator marked finished; from a finished iterator every path returns None and stays finished; every loop iteration of advance consumes a line or leaves the loop",
     PATHS, "path-sensitive MIR dataflow: progress facts and the finished flag in final states",
     PARSER + "A finished iterator is one whose flag is set at return; the readers' own termination is assumed.")
def order_units(ctx, pid):
    u = []
    for d in ["thr"] + (["seq"] if ctx.thorough else []):
        prog = ctx.prog(d)
        for r, f in (("r_kind_cmp", p2.kind_order), ("r_kind_partial_cmp", p2.kind_order), ("r_kind_eq", p2.kind_eq)):
            u.append(func_unit("%s/%s" % (d, r), lambda prog=prog, r=r, f=f: (graph.PROG.__setitem__(0, prog), f(prog, r))[1]))
    return u
prop("C20", order_units,
     "every return path of cmp, partial_cmp and eq, for the four combinations of kinds with valid paths: the path's facts are evaluated over all orders of (directory, name, whole path) they admit, and the value returned must be the order of (directory path, directories first, file name)",
     PATHS, "path-sensitive MIR dataflow; comparison facts enumerated over all consistent orders",
     "All paths of EntryKind's cmp, partial_cmp and eq. Path comparison itself (component-wise, std) is a library model; equal paths are taken as one order class.")
def lines_units(ctx, pid, ds):
    return [u for d in ds for u in (root_case(ctx, d, "r_parser_iter", lambda g, d=d: p2.start(g, ctx.prog(d), {"lines"}), keep_final=True),
                                    root_case(ctx, d, "r_parser_new", p2.header_lines, keep_final=True))]
prop("C26", case_units(ps.numbers, lines_units),
     "the line counter as a symbolic value: at every returned parse error its line number must equal the counter at the start of the call plus the lines read on the path, (one less when the line was kept from before and already counted); the counter in the final state likewise; the header parser starts it at 1",
     PATHS, "path-sensitive MIR dataflow: line counter against read events",
     PARSER)
prop("C30", case_units(p2.inside),
     "every entry returned with a file or link path: the path must be the join of the current directory (from a directory line checked absolute, or `/`) with a name for which the facts on the path leave a single normal component (component iteration facts, comparisons with parent/file_name), after decoding",
     PATHS, "path-sensitive MIR dataflow: provenance of entry paths and component facts",
     PARSER)

import decrules as dr, linerules as lr
def decoder_units(ctx, pid, ds):
    us_ = []
    for d in ds:
        prog = ctx.prog(d)
        us_.append(func_unit("%s/decoder of names" % d, lambda prog=prog: (graph.PROG.__setitem__(0, prog), dr.decoders_unit(prog))[1]))
    return us_
prop("C05", case_units(lr.c05, decoder_units),
     "one step of the decoder's loop under the facts of its path must write the decoding of exactly the bytes it moves over: candidate texts (escapes with every digit, truncated and malformed ones, text already decoded before) that satisfy the branch facts are decoded by the reference and compared with the written pieces; text written twice, skipped or read backwards is a violation; every name, path and target of a parsed line must be the result of exactly one decoding",
     PATHS, "path-sensitive MIR dataflow: inductive step of the decoding loop against a reference on all texts that satisfy the path's facts",
     "Every path through one iteration of the decoder for symbolic text; texts up to a few bytes beyond the position are enumerated, what the path copies as a block is symbolic. " + PARSER)
prop("C33", case_units(lr.c33),
     "per returned entry: the facts about the line's leading bytes and type field must be those of its kind; path, target, size, hashes and executable flag must be the terms of the fields the format assigns; digits are decided for all 256 byte values; the count of hashes on the grid of C06",
     PATHS, "path-sensitive MIR dataflow: provenance of entry fields against line fields",
     PARSER + "Splitting at spaces is a library model (splitn).")
def panic_case(C):
    o = ps.panics(C.g, "C15"); v = dict(o[0]); und = [o[3]] if o[3] else []
    if "block_size" in C.ix:
        for nd in C.finals():
            b = C.get(nd.st.mem, "block_size")
            if b is not C.f0("block_size"): und.append("block size changes during iteration")
    return v, o[1], True, "; ".join(und) or None
def panic_root(g): return ps.panics(g, "C15")
PANIC_ROOTS = ["r_parser_new", "r_parser_get_header", "r_parser_iter", "r_parser_into_reader", "r_header_version", "r_header_hash_type", "r_header_block_size", "r_entry_path", "r_entry_kind",
               "r_kind_eq", "r_kind_path", "r_kind_as_ref", "r_kind_cloned", "r_hashes_len", "r_hashes_get", "r_hashes_block_size", "r_hashes_hash_type", "r_hashes_iter", "r_check_file", "r_get_hash",
               "r_merge_new", "r_merge_iter", "r_hash_from_str", "r_hash_output_bytes", "r_merge_files"]
import mergerules as mr
STOPIT = {k: f for k, f in mr.STOP.items() if f}
def merge_panics(g):
    def excuse(g, e):
        return "EntryKind" in graph.fn(e)
    v, n, ok, und = ps.panics(g, "C15", excuse)
    for k in [k for k, (m, w) in v.items() if "index out of bounds" in k]:
        # an index taken from a list of indexes: mg.next decides that it came from enumerating the same vector
        es = [e for e in g.events() if e.kind == "panic" and str(e.name) == "index out of bounds" and k.startswith(graph.fn(e))]
        if all(mr.listed(g, e) for e in es): del v[k]
    return v, n, ok, und
def panic_units(ctx, pid, ds):
    u = []
    for d in ds:
        prog = ctx.prog(d)
        u += [root_case(ctx, d, r, panic_root) for r in PANIC_ROOTS]
        u += [root_case(ctx, d, r, merge_panics, stop=STOPIT) for r in ("r_merge_next", "r_merge_advance")]
        def dec(prog=prog):
            graph.PROG[0] = prog; v = {}; und = []; st = {"graph_nodes": 0}
            for path, key in ps.decoders(prog).items():
                o = ps.panics(dr.decoder(prog, path, key)[4], pid)
                v.update(o[0]); und += [o[3]] if o[3] else []; st["graph_nodes"] += o[1]
            return v, st, "; ".join(und) or None
        def cmp_(prog=prog):
            graph.PROG[0] = prog; v = {}; st = {"graph_nodes": 0}
            for r in ("r_kind_cmp", "r_kind_partial_cmp"):
                o = p2.kind_order(prog, r); st["graph_nodes"] += o[1]["graph_nodes"]
                v.update({k: x for k, x in o[0].items() if k.startswith("panic/")})
            return v, st
        u += [func_unit("%s/decoder of names" % d, dec), func_unit("%s/comparison" % d, cmp_)]
        def bs(g, prog=prog):
            o = p2.header(g, prog)
            return {k: x for k, x in o[0].items() if k == "block size"}, o[1], True, None
        def st_(g, prog=prog):
            o = p2.start(g, prog, {"block_size"})
            return {}, o[1], True, "; ".join(m for m, w in o[0].values()) or (o[3] if len(o) > 3 else None)
        u += [root_case(ctx, d, "r_parser_new", bs, keep_final=True), root_case(ctx, d, "r_parser_iter", st_, keep_final=True)]
    return u
prop("C15", case_units(panic_case, panic_units),
     "every panic site (assertion, unwrap/expect, index, slice bound, overflow, division, explicit panic) reachable in the analysed program: a path to it whose facts are consistent is a violation.  A bound check whose index or length is a loop variable is decided at the loop's first pass and otherwise by linear facts kept through joins; assumptions (block size at least 1, valid entry paths) are obligations on the header parser, the iterator's construction and the comparison",
     PATHS, "path-sensitive MIR dataflow: feasibility of paths to panic sites by facts and linear arithmetic",
     PARSER + "Plus the header parser, get_hash, check_file, accessors, the decoder of names, comparison, merging. Panics inside std and the hash crates are excluded by their models' preconditions; running out of memory is excluded.")

def merge_units(ctx, pid):
    u = []
    for d in ["thr"] + (["seq"] if ctx.thorough else []):
        prog = ctx.prog(d)
        for f in (mr.next_rule, mr.advance_rule, mr.new_rule):
            def run(prog=prog, f=f):
                graph.PROG[0] = prog; o = f(prog)
                und = [o[3]] if o[3] else []
                if not o[2]: und.append("product limit reached")
                return o[0], {"graph_nodes": len(o[4].nodes), "graph_edges": o[4].edges, "abstract_events": len(o[4].events()), "product_states": o[1]}, "; ".join(und) or None
            u.append(func_unit("%s/%s" % (d, f.__name__), run))
    return u
prop("C21", merge_units,
     "one round of the loop over the sources, under the facts of its path: a source without an entry is not recorded, one with an error or with the first entry is, a smaller entry clears the list and becomes the smallest, an equal one is added, a greater one is not; a new entry is read only where none can be pending and stays in its slot; then each recorded source's slot is emptied exactly once and yielded under the key of the same source; the end is reported only when nothing was taken, and both loops run to their end; construction succeeds only on paths on which every source's hash type and block size was compared and none differed",
     PATHS, "path-sensitive MIR dataflow with a selection automaton over loop rounds (inductive per source)",
     "Every path of next, advance and new of the merging types; the sources' own next/advance are C18, the comparison of kinds is C20, both stand as calls here. One round is judged for an arbitrary source, so any number of sources is covered.")

import saysrules as sy
def hfield(n): return lambda prog: sy.fld(sy.de("h"), ps.struct(prog, "Hashes").get(n, 99))
def headfield(n): return lambda prog: sy.fld(sy.de("h"), ps.struct(prog, "Header").get(n, 99))
ACCESS = [("r_header_version", sy.getter("get_version", headfield("version"))), ("r_header_hash_type", sy.getter("get_hash_type", headfield("hash_type"))),
          ("r_header_block_size", sy.getter("get_block_size", headfield("block_size"))),
          ("r_parser_get_header", sy.getter("get_header", lambda prog: sy.fld(sy.de("p"), ps.struct(prog, "Parser").get("header", 99)))),
          ("r_parser_into_reader", sy.getter("into_reader", lambda prog: sy.fld(sy.par("p"), ps.struct(prog, "Parser").get("reader", 99)))),
          ("r_parser_new", sy.parsed_header), ("r_parser_new", sy.one_line), ("r_parser_iter", sy.iterator),
          ("r_entry_path", sy.by_variant("path", "Entry", "e", sy.entry_path)), ("r_entry_kind", sy.entry_kind), ("r_kind_path", sy.kind_path),
          ("r_kind_as_ref", sy.kind_same("as_ref")), ("r_kind_cloned", sy.kind_same("cloned")),
          ("r_hashes_len", sy.h_len), ("r_hashes_get", sy.h_get), ("r_hashes_block_size", sy.getter("block_size", hfield("block_size"))),
          ("r_hashes_hash_type", sy.getter("hash_type", hfield("hash_type"))), ("r_hashes_iter", sy.listing)]
def access_units(ctx, pid):
    u = []
    for d in ["thr"] + (["seq"] if ctx.thorough else []):
        for r, f in ACCESS:
            n, run = root_case(ctx, d, r, f, keep_final=True)
            u.append((n + ("/lines" if f is sy.one_line else ""), run))
    return u
prop("C34", access_units,
     "the value returned on every path of an accessor must be the very field (by name and variant) it stands for; len() and get() are evaluated for numbers of hashes and indexes, including ones whose offsets overflow; the listing of hashes must hand out every stored chunk of 32 bytes in turn; a new Parser's header must hold the number of its line and the iterator the header's values",
     PATHS, "path-sensitive MIR dataflow: provenance of returned values, bounds evaluated on a grid",
     "Header, Parser, Entry, EntryKind and Hashes accessors; what the fields were filled with is C33 and C17. Bounds of len() and get() are linear in the number of hashes and decided on a grid of counts and indexes.")
TOLD = [("r_em_new", "new"), ("r_em_dir", "dir"), ("r_em_file", "file"), ("r_em_link", "link")]
def told_units(ctx, pid):
    return [root_case(ctx, d, r, sy.told(k), keep_final=True) for d in ["thr"] + (["seq"] if ctx.thorough else []) for r, k in TOLD]
prop("C35", told_units,
     "an automaton over the bytes accepted by the destination on every path of new and each add method: literal bytes, the escaped argument itself, the decimal of the size argument itself (compared on a grid when rewritten), `x` exactly under the fact that the flag is set, then for each stored hash taken in turn one space and its hex digits, and success only after the newline with no hash left",
     PATHS, "path-sensitive MIR dataflow with a line automaton over symbolic text",
     "Any arguments; the number of hashes is arbitrary (one round of the loop is judged for any position). Escaping and hex formatting themselves are C04 and C31, the footer is C01.")
def one_root(r, rule, **kw):
    return lambda ctx, pid: [root_case(ctx, d, r, rule, keep_final=True, **kw) for d in ["thr"] + (["seq"] if ctx.thorough else [])]
prop("C36", one_root("r_hash_file", sy.hash_file),
     "on every path of hash_file: each non-empty read is followed by recording exactly one whole digest at the end of the list before the next read or the return; the size returned is, as a term over the lengths read, their sum (the loop's counter starts at 0 and grows by the length read); success only under facts that imply a short or empty read; block size and hash type recorded are the arguments",
     PATHS, "path-sensitive MIR dataflow with a block-recording automaton; sums compared as terms on a grid",
     "Any reader, any number of blocks (loop invariants), every hash type. What a digest covers is C02.")
prop("C37", one_root("r_merge_files", sy.merge_files),
     "on every path of add, add, finalize: the files opened are the registered index files in turn, each parser made from one is kept under the base path registered with it, at the end of the list; success only with both, and not after a file failed to open",
     PATHS, "path-sensitive MIR dataflow with a registration automaton",
     "Two registered files stand for any number (the loop of finalize treats them alike); merging itself is C21.")
