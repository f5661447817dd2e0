"""What each check runs: driver, trace module, models, generators, build variants."""

MAIN = ["ref", "ndpop", "port", "asan"]
TABLES = {"module": "MC_Tables", "cfg": "MC_Tables.cfg", "workers": 2}
BP_RUNS = {"module": "MC_BpRuns", "cfg": "MC_BpRuns.cfg", "workers": 2}
BP_RUNS_T = {"module": "MC_BpRuns", "cfg": "MC_BpRuns_thorough.cfg", "workers": 8}
BIG_IM = {"module": "MC_BigImages", "cfg": "MC_BigImages.cfg", "workers": 2}
BIG_IM_T = {"module": "MC_BigImages", "cfg": "MC_BigImages_thorough.cfg", "workers": 8}
TOP_RUNS = {"module": "MC_TopRuns", "cfg": "MC_TopRuns.cfg", "workers": 2}
TOP_RUNS_T = {"module": "MC_TopRuns", "cfg": "MC_TopRuns_thorough.cfg", "workers": 8}
BIG_VAL = {"module": "MC_BigValues", "cfg": "MC_BigValues.cfg", "workers": 2}
BIG_VAL_T = {"module": "MC_BigValues", "cfg": "MC_BigValues_thorough.cfg", "workers": 8}
BIG_LN = {"module": "MC_LinesBig", "cfg": "MC_LinesBig.cfg", "workers": 2}
BIG_LN_T = {"module": "MC_LinesBig", "cfg": "MC_LinesBig_thorough.cfg", "workers": 8}
LIST_RUNS = {"module": "MC_ListRuns", "cfg": "MC_ListRuns.cfg", "workers": 2}
LIST_RUNS_T = {"module": "MC_ListRuns", "cfg": "MC_ListRuns_thorough.cfg", "workers": 8}
EF_RUNS = {"module": "MC_EfRuns", "cfg": "MC_EfRuns.cfg", "workers": 2}
EF_RUNS_T = {"module": "MC_EfRuns", "cfg": "MC_EfRuns_thorough.cfg", "workers": 8}
VAL_RUNS = {"module": "MC_ValRuns", "cfg": "MC_ValRuns.cfg", "workers": 2}
VAL_RUNS_T = {"module": "MC_ValRuns", "cfg": "MC_ValRuns_thorough.cfg", "workers": 8}
SPARSE = {"module": "MC_SparseBits", "cfg": "MC_SparseBits.cfg", "workers": 2}
SPARSE_T = {"module": "MC_SparseBits", "cfg": "MC_SparseBits_thorough.cfg", "workers": 8}
SPARSE_B = {"module": "MC_SparseBuilder", "cfg": "MC_SparseBuilder.cfg", "workers": 2}
SPARSE_B_T = {"module": "MC_SparseBuilder", "cfg": "MC_SparseBuilder_thorough.cfg", "workers": 8}
TABLES_T = {"module": "MC_Tables", "cfg": "MC_Tables_thorough.cfg", "workers": 8}



def mc(module, tag, consts, invs, props=(), expect=None, spec="Spec", workers=2, heap="3g", timeout=800, extra=""):
    """One exhaustive TLC run: the constants of the instance, what must hold, or (expect) what a deliberately
    broken variant must be refuted with."""
    text = "SPECIFICATION %s\nCHECK_DEADLOCK FALSE\n" % spec
    text += "CONSTANTS\n" + "".join(" %s = %s\n" % kv for kv in consts.items())
    text += "".join("INVARIANT %s\n" % i for i in invs) + "".join("PROPERTY %s\n" % i for i in props) + extra
    m = dict(module=module, cfg="%s-%s.cfg" % (module, tag), text=text, workers=workers, heap=heap, timeout=timeout)
    if expect:
        m["expect"] = expect
    return m


def broken(module, bugs, consts, invs, expect=None, **kw):
    """Every bug named in the model must be refuted: the invariant is not vacuous."""
    return [mc(module, "bug-" + b, dict(consts, Bug='"%s"' % b), invs, expect=(expect or {}).get(b, "is violated"), workers=1, heap="1g", **kw)
            for b in bugs]


BUILDER = mc("BuilderImpl", "5", dict(W=3, MaxLen=5, Bug='"none"'), ["Refines", "PointerGood"])
BUILDER_T = [mc("BuilderImpl", "7", dict(W=3, MaxLen=7, Bug='"none"'), ["Refines", "PointerGood"], workers=8)] + broken(
    "BuilderImpl", ["reserve", "second_word", "swap"], dict(W=3, MaxLen=5), ["Refines", "PointerGood"],
    {"reserve": "PointerGood is violated", "swap": "PointerGood is violated", "second_word": "Refines is violated"})

CURI = ["AnswersExact", "ReaderMeans", "EnumMeans"]
CURSOR = mc("CursorImpl", "3-7", dict(W=3, MaxLen=7, Bug='"none"'), CURI)
CURSOR_T = [mc("CursorImpl", "4-11", dict(W=4, MaxLen=11, Bug='"none"'), CURI, workers=8)] + broken(
    "CursorImpl", ["take_word", "shift_once", "skip_keeps", "skip0_buffer"], dict(W=3, MaxLen=7), CURI,
    {"shift_once": "shift out of range"})

DAI = ["CountExact", "SelectExact"]
DA_C = dict(W=3, BLOCK=4, SUB=2, MAXD=6, Bug='"none"')
D64_C = dict(W=3, BLOCK=4, SUB=2, LIM=12, Bug='"none"')
DARRAY = [mc("DArrayImpl", "10", dict(DA_C, MaxLen=10), DAI), mc("DArray64Impl", "8", dict(D64_C, MaxOnes=8), DAI)]
DARRAY_T = [mc("DArrayImpl", "14", dict(DA_C, MaxLen=14), DAI, workers=6), mc("DArrayImpl", "w4", dict(DA_C, W=4, BLOCK=6, SUB=3, MAXD=8, MaxLen=14), DAI, workers=6),
            mc("DArray64Impl", "11", dict(D64_C, MaxOnes=11), DAI, workers=6),
            mc("DArray64Impl", "bug-lim", dict(D64_C, LIM=6, MaxOnes=8), DAI, expect="is violated"),
            mc("DArray64Impl", "bug-gap", dict(D64_C, Bug='"wide_gap"', LIM=8, MaxOnes=8), DAI, expect="is violated")] + broken(
    "DArrayImpl", ["le", "no_filler", "padding", "overflow_index", "no_mask"], dict(DA_C, MaxLen=11), DAI, {"no_filler": "SelectExact"})


def bp(w, y, bb, sb, n, invs, **kw):
    return mc("BpImpl", "%d-%d-%d-%d-%d" % (w, y, bb, sb, n), dict(W=w, YB=y, BB=bb, SB=sb, MaxLen=n, Bug='"none"'), invs, **kw)


BPM = ["CloseExact", "OpenExact"]
BPQ = ["RmqExact"]
BP_C = dict(W=1, YB=1, BB=1, SB=2, MaxLen=16)
BP_M = [bp(1, 1, 1, 2, 14, BPM), bp(2, 1, 2, 2, 14, BPM), bp(4, 2, 1, 1, 14, BPM)]
BP_M_T = [bp(1, 1, 2, 2, 18, BPM, workers=3), bp(2, 2, 2, 1, 18, BPM, workers=3), bp(4, 2, 1, 2, 18, BPM, workers=3)] + broken(
    "BpImpl", ["guard", "first_block", "no_start"], BP_C, BPM, {"first_block": "OpenExact", "no_start": "OpenExact"})
BP_Q = [bp(1, 1, 1, 2, 14, BPQ), bp(2, 1, 2, 2, 14, BPQ), bp(1, 1, 1, 1, 12, BPQ)]
BP_Q_T = [bp(1, 1, 1, 2, 16, BPQ, workers=3), bp(2, 1, 1, 2, 16, BPQ, workers=3), bp(4, 2, 2, 1, 16, BPQ, workers=3)] + broken(
    "BpImpl", ["not_leftmost", "tree_tie"], BP_C, BPQ)

CART_C = dict(Keys="{0, 1, 2}", MaxLen=4, Bug='"none"')
CARI = ["Shape", "RmqExact"]
CART = mc("CartesianImpl", "4", CART_C, CARI)
CART_T = [mc("CartesianImpl", "6", dict(CART_C, MaxLen=6), CARI, workers=4)] + broken("CartesianImpl", ["ties", "strict"], CART_C, CARI)

TOPK_C = dict(Values="{0, 1, 2}", MaxLen=3, Bug='"none"')
TOPI = ["OrderExact", "ValueShown", "HeapCovers"]
TOPK = mc("TopKImpl", "3", TOPK_C, TOPI)
TOPK_T = [mc("TopKImpl", "4", dict(TOPK_C, MaxLen=4), TOPI, workers=6)] + broken(
    "TopKImpl", ["index_order", "restart", "swap_cur"], TOPK_C, TOPI,
    {"index_order": "OrderExact", "restart": "HeapCovers", "swap_cur": "ValueShown"})

RS_C = dict(W=2, BS=2, HINT=4, MaxLen=10, Bug='"none"')
RSI = ["RankCorrect", "SelectCorrect", "CountCorrect", "Inverse"]
RS = [mc("RsBitVector", "2-2-4", RS_C, RSI), mc("RsBitVector", "2-3-6", dict(RS_C, BS=3, HINT=6, MaxLen=11), RSI)]
RS_T = [mc("RsBitVector", "2-3-7", dict(RS_C, BS=3, HINT=7, MaxLen=14), RSI, workers=4),
        mc("RsBitVector", "3-2-6", dict(RS_C, W=3, HINT=6, MaxLen=14), RSI, workers=4),
        mc("RsBitVector", "1-4-8", dict(RS_C, W=1, BS=4, HINT=8, MaxLen=14), RSI, workers=4)] + broken(
    "RsBitVector", ["hint_from", "search_lt", "lane_lt", "no_closing_pair", "hint_end", "fill_zero"],
    dict(RS_C, BS=3, HINT=6, MaxLen=12), RSI, dict.fromkeys(["hint_from", "search_lt", "lane_lt", "hint_end", "fill_zero"], "SelectCorrect"))

EF_C = dict(W=4, MaxN=15, MaxM=4, Bug='"none"')
EFR = ["SelectExact", "RankExact", "MemberExact", "DeltaExact", "RangeExact"]
EFE = ["EnumExact"]
EF_R = mc("EliasFanoImpl", "4-15-4", EF_C, EFR)
EF_R_T = [mc("EliasFanoImpl", "5-22-5", dict(EF_C, W=5, MaxN=22, MaxM=5), EFR, workers=6)] + broken(
    "EliasFanoImpl", ["high_short", "rank_gt", "scan_hit", "delta_carry", "range_next"], EF_C, EFR,
    {"high_short": "RankExact", "rank_gt": "RankExact", "scan_hit": "MemberExact", "delta_carry": "DeltaExact", "range_next": "RangeExact"})
EF_E = mc("EliasFanoImpl", "enum-4-15-4", EF_C, EFE)
EF_E_T = [mc("EliasFanoImpl", "enum-4-15-6", dict(EF_C, MaxM=6), EFE, workers=6),
          mc("EliasFanoImpl", "enum-5-24-4", dict(EF_C, W=5, MaxN=24), EFE, workers=6)] + broken(
    "EliasFanoImpl", ["one_more"], EF_C, EFE)

LI_C = dict(W=3, MaxLen=4, Bug='"none"')
LI_R = mc("ListsImpl", "3-4", LI_C, ["SizeExact", "GetExact", "SumExact"])
LI_R_T = [mc("ListsImpl", "3-5", dict(LI_C, MaxLen=5), ["SizeExact", "GetExact", "SumExact"], workers=6),
          mc("ListsImpl", "4-3", dict(LI_C, W=4, MaxLen=3), ["SizeExact", "GetExact", "SumExact"], workers=6)] + broken(
    "ListsImpl", ["low_place", "bias"], LI_C, ["SizeExact", "GetExact", "SumExact"], dict(low_place="GetExact", bias="GetExact"))
LI_E = mc("ListsImpl", "enum-3-4", LI_C, ["EnumExact", "ReaderMeans"])
LI_E_T = [mc("ListsImpl", "enum-3-5", dict(LI_C, MaxLen=5), ["EnumExact", "ReaderMeans"], workers=6),
          mc("ListsImpl", "enum-4-3", dict(LI_C, W=4, MaxLen=3), ["EnumExact", "ReaderMeans"], workers=6)] + broken(
    "ListsImpl", ["open_place", "advance"], LI_C, ["EnumExact", "ReaderMeans"])

ST_C = dict(Obj="{1, 2}", Img="{1, 2}", Flg="{0, 6}", Bug='"none"')
ST_I = ["Typed", "ImageIsEncoding", "SizesAgree", "TreeAddsUp"]
STORE = mc("StoreImpl", "2-2", ST_C, ST_I, ["Refines"])
STORE_T = [mc("StoreImpl", "3-2", dict(ST_C, Obj="{1, 2, 3}"), ST_I, ["Refines"], workers=6)]
STORE_B14 = broken("StoreImpl", ["map_step", "map_flags", "swap_field", "freeze_flags"], ST_C, ST_I,
                   dict.fromkeys(["map_step", "map_flags"], "is violated|must be in the domain"), props=["Refines"])
STORE_B15 = broken("StoreImpl", ["freeze_count", "freeze_flags"], ST_C, ST_I, {"freeze_count": "SizesAgree", "freeze_flags": "SizesAgree"}, props=["Refines"])

OW_C = dict(Vec="{1}", Mv="{1, 2}", Reg="{1, 2}", Con="{1, 2}", Bug='"none"')
OW_I = ["ShownWell", "ReleasedOnce", "HeldOnce", "HeldExact"]
OWNER = mc("OwnerImpl", "1-2", OW_C, OW_I, ["Refines"])
OWNER_T = [mc("OwnerImpl", "2-2", dict(OW_C, Vec="{1, 2}"), OW_I, ["Refines"], workers=6),
           mc("OwnerImpl", "1-3", dict(OW_C, Mv="{1, 2, 3}"), OW_I, ["Refines"], workers=6)] + broken(
    "OwnerImpl", ["swap_deleter", "steal_keeps", "steal_empty", "steal_shares", "map_keeps", "map_owns"], dict(OW_C, Vec="{1, 2}"), OW_I, props=["Refines"])

WO_I = ["LanesExact", "SumsExact", "ShapeExact", "TopsExact"]


def wo(lb, nl, check, bug="none", **kw):
    return mc("WordOpsImpl", "%s-%d-%d-%s" % (check, lb, nl, bug), dict(LB=lb, NL=nl, CHECK='"%s"' % check, Bug='"%s"' % bug), WO_I, **kw)


# "by_product" is not a bug: it is how the variant without a population count instruction finds the byte of the k-th one
WORDOPS = [wo(3, 2, "lanes"), wo(4, 2, "sums"), wo(4, 2, "sums", "by_product"), wo(4, 2, "shape"), wo(4, 2, "tops")]
WORDOPS_T = [wo(4, 2, "lanes", workers=6), wo(2, 4, "lanes", workers=6), wo(5, 2, "lanes", workers=6)] + [
    wo(4, 2, "lanes", b, expect="LanesExact is violated") for b in ("leq_total", "uleq_side", "z_top")] + [
    wo(4, 3, "sums", expect="SumsExact is violated"), wo(4, 2, "sums", "rank_lane", expect="SumsExact is violated"),
    wo(4, 2, "shape", "rev_step", expect="ShapeExact is violated"), wo(4, 2, "tops", "sat_short", expect="TopsExact is violated")]

RD_C = dict(Obj="{1, 2}", Thr="{1, 2}", W=1, Bug='"none"')
READERS = mc("ReadersImpl", "2-2", RD_C, ["AnswersTrue"], ["Silent", "Refines", "Answered"])
READERS_T = [mc("ReadersImpl", "1-3-w2", dict(RD_C, Obj="{1}", Thr="{1, 2, 3}", W=2), ["AnswersTrue"], ["Silent", "Refines"], workers=6, heap="6g"),
             mc("ReadersImpl", "2-2-w2", dict(RD_C, W=2), ["AnswersTrue"], ["Silent", "Refines"], workers=6, heap="6g")] + broken(
    "ReadersImpl", ["memo", "scratch"], RD_C, ["AnswersTrue"]) + [
    mc("ReadersImpl", "bug-memo-1", dict(RD_C, Thr="{1}", Bug='"memo"'), ["AnswersTrue"], expect="AnswersTrue is violated"),
    mc("ReadersImpl", "bug-memo-silent", dict(RD_C, Bug='"memo"'), [], ["Silent"], expect="Silent is violated")]

CD_C = dict(W=6, G=2, MaxCodes=2, Bug='"none"')
CDI = ["CodesExact", "DecodeExact", "SignedExact", "CeilExact"]
CODES = [mc("CodesImpl", "6-2", CD_C, CDI), mc("CodesImpl", "5-3", dict(CD_C, W=5, G=3), CDI)]
CODES_T = [mc("CodesImpl", "8-3", dict(CD_C, W=8, G=3), CDI, workers=6), mc("CodesImpl", "5-2-3", dict(CD_C, W=5, MaxCodes=3), CDI, workers=6)] + broken(
    "CodesImpl", ["size", "mask", "int_min", "nat_max", "ceil_any"], CD_C, CDI, {"int_min": "signed overflow"})

LN_C = dict(MaxLen=6, KS="{2, 3, 4}", Bug='"none"')
LINES = mc("LinesImpl", "6", LN_C, ["LinesExact"], ["Finishes"])
LINES_T = [mc("LinesImpl", "8", dict(LN_C, MaxLen=8, KS="{2, 3, 5}"), ["LinesExact"], ["Finishes"], workers=6)] + broken(
    "LinesImpl", ["no_prime", "dup_last", "trim_piece", "full_buffer", "end_equal"], LN_C, ["LinesExact"], {"end_equal": "reading past the end"})

PROPS = {
    "C01": dict(
        harness=["C01.cpp"], trace="TraceC01", configs=MAIN,
        gens=[dict(module="BuilderGen", cfg="BuilderGen.cfg", depth=27, num={"quick": 1200, "thorough": 12000})],
        models=[BUILDER, SPARSE_B],
        models_thorough=BUILDER_T + [SPARSE_B_T],
        modes=[{}, {"mode": "huge", "nshards": 3, "configs": ["ref", "ndpop"]}],
    ),
    "C02": dict(
        harness=["C02.cpp"], trace="TraceC02", configs=MAIN,
        models=[TABLES, SPARSE],
        models_thorough=[TABLES_T, SPARSE_T],
        modes=[{}, {"mode": "huge", "nshards": 2, "configs": ["ref", "ndpop"]}],
    ),
    "C03": dict(
        harness=["C03.cpp"], trace="TraceC03", configs=MAIN,
        gens=[dict(module="CursorGen", cfg="CursorGen.cfg", depth=42, num={"quick": 1200, "thorough": 10000})],
        models=[TABLES, CURSOR, SPARSE],
        models_thorough=CURSOR_T + [SPARSE_T],
        modes=[{}, {"mode": "huge", "nshards": 2, "configs": ["ref", "ndpop"]}],
    ),
    "C04": dict(
        harness=["C04.cpp"], trace="TraceC04", configs=MAIN,
        models=RS + [TABLES, SPARSE], models_thorough=RS_T + [TABLES_T, SPARSE_T],
        modes=[{}, {"mode": "huge", "nshards": 2, "configs": ["ref", "ndpop"]}],
    ),
    "C05": dict(
        harness=["C05.cpp"], trace="TraceC05", configs=MAIN,
        models=[TABLES, EF_RUNS] + DARRAY, models_thorough=DARRAY_T + [EF_RUNS_T],
        modes=[{}, {"mode": "huge", "nshards": 5, "configs": ["ref", "ndpop"]}],
    ),
    "C06": dict(
        harness=["C06.cpp"], trace="TraceC06", configs=MAIN,
        models=[TABLES, BP_RUNS] + BP_M, models_thorough=[BP_RUNS_T] + BP_M_T,
        modes=[{}, {"mode": "huge", "nshards": 3, "configs": ["ref", "ndpop"]}],
    ),
    "C07": dict(
        harness=["C07.cpp"], trace="TraceC07", configs=MAIN,
        models=[TABLES, BP_RUNS] + BP_Q, models_thorough=[BP_RUNS_T] + BP_Q_T,
        modes=[{}, {"mode": "huge", "nshards": 3, "configs": ["ref", "ndpop"]}],
    ),
    "C08": dict(
        harness=["C08.cpp"], trace="TraceC08", configs=MAIN,
        models=[TABLES, CART, VAL_RUNS], models_thorough=CART_T + [VAL_RUNS_T],
        modes=[{}, {"mode": "huge", "nshards": 2, "configs": ["ref", "ndpop"]}],
    ),
    "C09": dict(
        harness=["C09.cpp"], trace="TraceC09", configs=MAIN,
        gens=[dict(module="TopKGen", cfg="TopKGen.cfg", depth=42, num={"quick": 800, "thorough": 8000})],
        models=[TOPK, TOP_RUNS], models_thorough=TOPK_T + [TOP_RUNS_T],
        modes=[{}, {"mode": "huge", "nshards": 1, "configs": ["ref", "ndpop"]}], huge_limit=14,
    ),
    "C10": dict(
        harness=["C10.cpp"], trace="TraceC10", configs=MAIN, models=[EF_R, EF_RUNS], models_thorough=EF_R_T + [EF_RUNS_T],
        modes=[{}, {"mode": "huge", "nshards": 4, "configs": ["ref", "ndpop"]}],
    ),
    "C11": dict(
        harness=["C11.cpp"], trace="TraceC11", configs=MAIN, models=[EF_E, EF_RUNS], models_thorough=EF_E_T + [EF_RUNS_T],
        modes=[{}, {"mode": "huge", "nshards": 4, "configs": ["ref", "ndpop"]}],
        gens=[dict(module="EnumGen", cfg="EnumGen.cfg", depth=32, num={"quick": 800, "thorough": 8000})],
    ),
    "C12": dict(harness=["C12.cpp"], trace="TraceC12", configs=MAIN, models=[LI_R, LIST_RUNS], models_thorough=LI_R_T + [LIST_RUNS_T],
        modes=[{}, {"mode": "huge", "nshards": 4, "configs": ["ref", "ndpop"]}],
    ),
    "C13": dict(
        harness=["C13.cpp"], trace="TraceC13", configs=MAIN, models=[LI_E, LIST_RUNS], models_thorough=LI_E_T + [LIST_RUNS_T],
        modes=[{}, {"mode": "huge", "nshards": 4, "configs": ["ref", "ndpop"]}],
        gens=[dict(module="EnumGen", cfg="EnumGen.cfg", depth=32, num={"quick": 800, "thorough": 8000})],
    ),
    "C14": dict(
        harness=["C14.cpp"], trace="TraceC14", configs=MAIN, models=[STORE, BIG_VAL], models_thorough=STORE_T + STORE_B14 + [BIG_VAL_T],
        modes=[{}, {"mode": "huge", "nshards": 4, "configs": ["ref"]}], huge_limit=80,
        unjudged=["build.oAns", "freeze.oImg", "freeze.oAns"],
        gens=[dict(module="StoreGen", cfg="StoreGen.cfg", depth=26, num={"quick": 1100, "thorough": 8800})],
    ),
    "C16": dict(
        harness=["C16.cpp"], trace="TraceC16", configs=["ref", "ndpop", "port", "asan"], models=[OWNER], models_thorough=OWNER_T, unjudged=["str.oBig"],
        modes=[{}, {"mode": "huge", "nshards": 1, "configs": ["ref"]}], huge_limit=30,
        gens=[dict(module="OwnerGen", cfg="OwnerGen.cfg", depth=32, num={"quick": 800, "thorough": 8000})],
    ),
    "C17": dict(
        harness=["C17.cpp"], trace="TraceC17", configs=["ref", "ndpop", "port", "o3", "clang", "asan"], models=WORDOPS, models_thorough=WORDOPS_T,
    ),
    "C18": dict(
        harness=["C18.cpp"], trace="TraceC18", configs=["ref", "ndpop", "port", "portnd", "pop", "o3", "clang"], models=[wo(4, 2, "sums"), wo(4, 2, "sums", "by_product"), wo(4, 2, "tops"), STORE], models_thorough=[wo(4, 2, "lanes", workers=6)] + STORE_T,
        phases=["freeze", "map"], unjudged=["base.oAns", "base.oImg"],
    ),
    "C19": dict(
        harness=["C19.cpp"], trace="TraceC19", configs=["ref", "ndpop", "asan", "tsan"], models=[READERS], models_thorough=READERS_T, unjudged=["base.oA", "ask0.oA", "mix0.oA"],
        modes=[{"not_configs": ["tsan"]}, {"mode": "threads", "configs": ["ref", "ndpop", "tsan"]}],
        gens=[dict(module="LibraryGen", cfg="LibraryGen.cfg", depth=32, num={"quick": 600, "thorough": 6000})],
    ),
    "C20": dict(harness=["C20.cpp"], trace="TraceC20", configs=MAIN + ["o3"], models=CODES, models_thorough=CODES_T,
        modes=[{}, {"mode": "huge", "nshards": 1, "configs": ["ref", "ndpop"]}], huge_limit=80),
    "C21": dict(harness=["C21.cpp"], trace="TraceC21", configs=["ref", "ndpop", "asan", "clang"], models=[LINES, BIG_LN], models_thorough=LINES_T + [BIG_LN_T],
        modes=[{}, {"mode": "huge", "nshards": 1, "configs": ["ref"]}], huge_limit=20),
    "C15": dict(harness=["C15.cpp"], trace="TraceC15", configs=MAIN, models=[STORE, BIG_IM], models_thorough=STORE_T + STORE_B15 + [BIG_IM_T],
        modes=[{}, {"mode": "huge", "nshards": 3, "configs": ["ref", "ndpop"]}], huge_limit=80),
}
