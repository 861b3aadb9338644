import sys
Unit = sys.modules["__main__"].Unit
GLOBAL_ASSUMPTIONS = [
    "machine arithmetic is two's complement and wraps (signed overflow in the interpreter's own integer operators is not reported)",
    "the host allocation callback returns distinct, suitably aligned memory of the requested size and does not fail",
]
TRUSTED = {}
UNITS = []
def U(*a, **k):
    UNITS.append(Unit(*a, **k))

# ------------------------------------------------------------------------------------------------- VM instructions
PORT = ["--z3 --fpa --external-smt2-solver z3-new", "--cvc5 --fpa"]
VM_ASSUME = ["the operand stack is built with TINY_THREAD_STACK_SIZE=8 and TINY_THREAD_MAX_CALL_DEPTH=4 in the instruction contracts (build options of the library; the defaults are 128 and 64)",
             "instruction contracts are checked for pc = 0..7: an instruction looks at pc only through the bytes at pc and pc's alignment"]
def vm(name, props, defs, **k):
    defs = ["OP=TINY_OP_" + name.split(".")[0], "TINY_THREAD_STACK_SIZE=8", "TINY_THREAD_MAX_CALL_DEPTH=4"] + defs
    defs.append("ALIGNS=8" if any("put64" in d for d in defs) else "ALIGNS=4" if any("put32" in d for d in defs) else "ALIGNS=1")
    kk = dict(mode="plain", replace=["GarbageCollect:GarbageCollect_spec", "Tiny_AreValuesEqual:AreValuesEqual_spec"], unwind=20, assumptions=VM_ASSUME, timeout=300)
    kk.update(k)
    U("vm_" + name.replace(".", "_"), "h_vm.c", props, ["ExecuteCycle", "DoPush", "DoPop"], defs=defs, **kk)

OPS = ["P01"]
MIX = [("ff", "mk_float(in_f64())", "mk_float(in_f64())", "A.f %s B.f"), ("if", "mk_int(in_u64())", "mk_float(in_f64())", "(double)A.i %s B.f"),
       ("fi", "mk_float(in_f64())", "mk_int(in_u64())", "A.f %s (double)B.i")]
BIN = ["POPS=2", "DELTA=-1"]
for op, sym in [("ADD", "+"), ("SUB", "-"), ("MUL", "*"), ("DIV", "/")]:
    e = "(uint64_t)A.i %s (uint64_t)B.i" % sym if op != "DIV" else "(uint64_t)(A.i/B.i)"
    pre = ["PRE=B.i!=0&&!(B.i==-1&&A.i==INT64_MIN)"] if op == "DIV" else []
    hard = dict(solver=PORT) if op in ("MUL", "DIV") else {}
    at = ["MINSP=5", "MAXSP=5"] if hard else []
    vm(op + ".int", OPS, BIN + at + pre + ["IN_AB=mk_int(in_u64())", "VALUE=is_int(TOP,%s)" % e], **hard)
    for n, i1, i2, ex in MIX:
        vm(op + "." + n, OPS, BIN + ["MINSP=5", "MAXSP=5", "IN_A=" + i1, "IN_B=" + i2, "VALUE=is_float(TOP,%s)" % (ex % sym)], solver=PORT, cost=5)
for op, sym, pre in [("MOD", "%", "PRE=B.i!=0&&!(B.i==-1&&A.i==INT64_MIN)"), ("OR", "|", ""), ("AND", "&", ""), ("SHIFT_LEFT", "<<", "PRE=B.i>=0&&B.i<64"), ("SHIFT_RIGHT", ">>", "PRE=B.i>=0&&B.i<64")]:
    e = {"<<": "(uint64_t)A.i << B.i"}.get(sym, "(uint64_t)(A.i %s B.i)" % sym)
    hard = dict(solver=PORT) if op == "MOD" else {}
    at = ["MINSP=5", "MAXSP=5"] if hard else []
    vm(op, OPS, BIN + at + ([pre] if pre else []) + ["IN_AB=mk_int(in_u64())", "VALUE=is_int(TOP,%s)" % e], **hard)
for op, sym in [("LT", "<"), ("LTE", "<="), ("GT", ">"), ("GTE", ">=")]:
    vm(op + ".int", OPS, BIN + ["IN_AB=mk_int(in_u64())", "VALUE=is_bool(TOP, A.i %s B.i)" % sym])
    for n, i1, i2, ex in MIX:
        vm(op + "." + n, OPS, BIN + ["MINSP=5", "MAXSP=5", "IN_A=" + i1, "IN_B=" + i2, "VALUE=is_bool(TOP,%s)" % (ex % sym)], solver=PORT, cost=5)
vm("ADD1", OPS, ["POPS=1", "IN_AB=mk_int(in_u64())", "VALUE=is_int(TOP,(uint64_t)B.i+1)"])
vm("SUB1", OPS, ["POPS=1", "IN_AB=mk_int(in_u64())", "VALUE=is_int(TOP,(uint64_t)B.i-1)"])
vm("EQU", ["P01", "P07"], BIN + ["IN_AB=in_value()", "VALUE=is_bool(TOP, EQ_RESULT)", "EXTRA=same_bits(EQ_A, A) && same_bits(EQ_B, B)"])
vm("LOG_NOT", OPS, ["POPS=1", "IN_AB=mk_bool(in_bool())", "VALUE=is_bool(TOP, !B.boolean)"])

LIT = ["P02"]
PUSH = ["POPS=0", "DELTA=1"]
vm("PUSH_NULL", LIT, PUSH + ["VALUE=TOP.type==TINY_VAL_NULL"])
vm("PUSH_NULL_N", LIT, ["POPS=0", "DELTA=OPND8", "LEN=2", "MAXSP=(TINY_THREAD_STACK_SIZE-OPND8)", "PUT=put8(PC+1,OPND8)", "PRE=SP+OPND8<=TINY_THREAD_STACK_SIZE",
    "VALUE=G<SP||G>=thread->sp||thread->stack[G].type==TINY_VAL_NULL"])
vm("PUSH_TRUE", LIT, PUSH + ["VALUE=is_bool(TOP,true)"])
vm("PUSH_FALSE", LIT, PUSH + ["VALUE=is_bool(TOP,false)"])
vm("PUSH_INT", LIT, PUSH + ["LEN=(align_up(PC+1,8)-PC+8)", "PUT=put64(align_up(PC+1,8),OPNDX)", "VALUE=is_int(TOP,OPNDX)"])
vm("PUSH_0", LIT, PUSH + ["VALUE=is_int(TOP,0)"])
vm("PUSH_1", LIT, PUSH + ["VALUE=is_int(TOP,1)"])
vm("PUSH_CHAR", LIT, PUSH + ["LEN=2", "PUT=put8(PC+1,OPND8)", "VALUE=is_int(TOP,OPND8)"])
vm("PUSH_FLOAT", LIT, PUSH + ["LEN=(align_up(PC+1,8)-PC+8)", "PUT=put64(align_up(PC+1,8),OPNDX)", "VALUE=TOP.type==TINY_VAL_FLOAT&&TOP.i==OPNDX"])
vm("PUSH_STRING", LIT, PUSH + ["LEN=(align_up(PC+1,4)-PC+4)", "SETUP=OPNDX&=0x3ff;strings_setup(OPNDX)", "PUT=put32(align_up(PC+1,4),OPNDX)", "VALUE=TOP.type==TINY_VAL_CONST_STRING&&TOP.cstr==STR"])
vm("PUSH_STRING_FF", LIT, PUSH + ["LEN=2", "SETUP=strings_setup(OPND8)", "PUT=put8(PC+1,OPND8)", "VALUE=TOP.type==TINY_VAL_CONST_STRING&&TOP.cstr==STR"])
C32 = ["LEN=(align_up(PC+1,4)-PC+4)", "PUT=put32(align_up(PC+1,4),OPNDX)"]
vm("GET", LIT, PUSH + C32 + ["SETUP=OPNDX=in_range(0,NGLOB-1);ASSUME(OPNDX==GG||GG!=OPNDX)", "VALUE=OPNDX!=GG||same_bits(TOP,OLD_GG)"])
vm("SET", LIT, ["POPS=1", "DELTA=-1", "SETS_GLOBAL=OPNDX", "SETUP=OPNDX=in_range(0,NGLOB-1)", "VALUE=OPNDX!=GG||same_value(GV[GG],B)"] + C32)
vm("GETLOCAL", LIT, PUSH + C32 + ["SETUP=OPNDX=in_range(0,TINY_THREAD_STACK_SIZE-1);ASSUME(FP+OPNDX<SP)", "VALUE=FP+OPNDX!=G||same_value(TOP,OLD_G)"])
vm("GETLOCAL_W", LIT, PUSH + ["LEN=2", "PUT=put8(PC+1,OPND8)", "PRE=FP+OPND8<SP", "SETUP=ASSUME(FP+OPND8<SP)", "VALUE=FP+OPND8!=G||same_value(TOP,OLD_G)"])
vm("SETLOCAL", LIT, ["POPS=1", "DELTA=-1", "SETS_STACK=FP+OPNDX", "SETUP=OPNDX=in_range(0,TINY_THREAD_STACK_SIZE-1);ASSUME(FP+OPNDX<SP-1)", "VALUE=FP+OPNDX!=G||same_value(thread->stack[G],B)"] + C32)

STRUCT = ["P02"]
vm("STRUCT_GET", STRUCT, ["POPS=1", "MINSP=4", "MAXSP=5", "LEN=2", "PUT=put8(PC+1,OPND8)", "SETUP=struct_setup(SP-1)", "VALUE=OPND8!=GFLD||same_bits(TOP,OLD_FLD)", "EXTRA=same_bits(OBJ->ostruct.fields[GFLD],OLD_FLD)"])
vm("STRUCT_SET", STRUCT, ["POPS=2", "MINSP=5", "MAXSP=5", "DELTA=-2", "LEN=2", "PUT=put8(PC+1,OPND8)", "SETUP=struct_setup(SP-1)", "VALUE=OPND8!=GFLD||same_bits(OBJ->ostruct.fields[GFLD],A)", "EXTRA=OPND8==GFLD||same_bits(OBJ->ostruct.fields[GFLD],OLD_FLD)"])
vm("PUSH_STRUCT", STRUCT, ["POPS=OPND8", "DELTA=1-OPND8", "LEN=2", "PUT=put8(PC+1,OPND8)", "MINSP=1", "NEWOBJ", "SETUP=ASSUME(OPND8>=1&&OPND8<=SP);TH.ctx.alloc=test_alloc",
    "VALUE=TOP.type==TINY_VAL_STRUCT&&TOP.obj->ostruct.n==OPND8&&TOP.obj==thread->gcHead&&TOP.obj->next==OLD_HEAD&&TOP.obj->type==TINY_VAL_STRUCT&&!TOP.obj->marked&&thread->numObjects==OLD_NUM+1",
    "EXTRA=G<SP-OPND8||G>=SP||same_bits(TOP.obj->ostruct.fields[G-(SP-OPND8)],OLD_G)"])

CTL = ["P03"]
vm("GOTO", CTL, ["NEWPC=(int)OPNDX", "SETUP=OPNDX=in_range(0,1<<30)", "PUT=put32(align_up(PC+1,4),OPNDX)"])
vm("GOTOZ", CTL, ["POPS=1", "DELTA=-1", "NEWPC=(B.boolean?PC+align_up(PC+1,4)-PC+4:(int)OPNDX)", "SETUP=OPNDX=in_range(0,1<<30)", "PUT=put32(align_up(PC+1,4),OPNDX)", "IN_AB=mk_bool(in_bool())"])
vm("HALT", CTL, ["NEWPC=-1"])

CALL = ["P04"]
vm("CALL", CALL, ["NEWPC=TARGET", "PUT=(put8(PC+1,OPND8),put32(align_up(PC+2,4),OPNDX))", "SETUP=func_setup()", "PRE=FC<TINY_THREAD_MAX_CALL_DEPTH", "NEWFC=(FC+1)", "NEWFP=SP", "PUSHES_FRAME",
    "VALUE=thread->frames[FC].fp==FP&&thread->frames[FC].nargs==OPND8&&thread->frames[FC].pc==align_up(PC+2,4)+4"])
RET = ["PRE=FC>0", "NEWFC=(FC-1)", "NEWPC=RETFRAME.pc", "NEWFP=RETFRAME.fp", "NEWSP=(FP-RETFRAME.nargs)", "STACKFROM=(FP-RETFRAME.nargs)", "SETUP=ret_setup()", "SETS_RET"]
vm("RETURN", CALL, RET + ["VALUE=thread->retVal.type==TINY_VAL_NULL"])
vm("RETURN_VALUE", CALL, RET + ["POPS=1", "VALUE=same_value(thread->retVal,B)"])
vm("CALLF", CALL, ["POPS=OPND8", "DELTA=-OPND8", "LEN=(align_up(PC+2,4)-PC+4)", "PUT=(put8(PC+1,OPND8),put32(align_up(PC+2,4),OPNDX))", "MINSP=0", "SETUP=foreign_setup()", "SETS_RET",
    "VALUE=same_bits(thread->retVal,F_RESULT)", "EXTRA=F_CALLS==1&&FN_OK"])
vm("GET_RETVAL", CALL, PUSH + ["VALUE=same_value(TOP,OLD_RET)"])

# ------------------------------------------------------------------------------------------------- arena
HOST = ["the arena's host callback is called through the context with (NULL,n) or (page,0); the harness callback records every call"]
U("arena_alloc", "h_arena.c", ["P10"], ["Tiny_InitArena", "Tiny_ArenaAlloc"], unwind=5, assumptions=HOST)
U("arena_destroy", "h_arena.c", ["P10"], ["Tiny_DestroyArena"], defs=["DESTROY"], unwind=5, assumptions=HOST + ["the loop of Tiny_DestroyArena changes only node, next and the freed page (loop cut havocs node)"])

# ------------------------------------------------------------------------------------------------- code generation
CG_REPLACE = ["CompileExpr:CompileExpr_spec", "CompileStatement:CompileStatement_spec", "PatchBreakContinue:PatchBreakContinue_spec", "ReportErrorE:ReportErrorE_spec",
              "GarbageCollect:GarbageCollect_spec", "Tiny_AreValuesEqual:AreValuesEqual_spec",
              "VC_REAL_CompileExpr:CompileExpr", "VC_REAL_CompileStatement:CompileStatement", "VC_REAL_PatchBreakContinue:PatchBreakContinue"]
CG_DEFS = ["FLAT_VALUES", "TINY_THREAD_STACK_SIZE=12", "TINY_THREAD_MAX_CALL_DEPTH=4", "TINY_MAX_NESTED_COMPILE_CALLS=1", "TINY_MAX_COMPILE_ERR_MSG_SZ=64"]
CG_ASSUME = ["children of the compiled node enter through the contract of CompileExpr/CompileStatement (one value pushed / stack height kept, control leaves behind the last byte)",
             "code is placed at byte offsets 32..39: generated code depends on its offset only through alignment"]
def expr(case, props, aligns=8, **k):
    kk = dict(defs=CG_DEFS + ["CASE=" + case, "ALIGNS=%d" % aligns], replace=CG_REPLACE, unwind=42, cbmc=["--max-field-sensitivity-array-size", "256"], assumptions=CG_ASSUME, timeout=400, cost=4)
    kk.update(k)
    U("expr_" + case, "h_expr.c", props, ["CompileExpr", "CompileGetLHS", "CompileCall", "CompileCallSymbolWithArgsPrepared", "GeneratePushInt", "GeneratePushFloat", "GeneratePushString", "GenerateJump", "PatchJumpLoc", "GenerateCode"], **kk)
for c in "null boolean".split(): expr(c, ["P02"], 2)
for c in "int0 int1 int_at str_at float global local0 arg const_int01 const_str const_bool const_float".split(): expr(c, ["P02"])
LITDEFS = CG_DEFS + ["LIT_AT=0", "ALIGNS=1"]
for c in "int char const_int".split(): expr(c, ["P02"], defs=LITDEFS + ["CASE=" + c])
for c in "str_small str_big".split(): expr(c, ["P02"], tier="thorough", defs=LITDEFS + ["LIT_STR", "CASE=" + c])
for c in "dot0 dot1 dot2 new new_012 new_021 new_102 new_120 new_201 new_210".split(): expr(c, ["P02"], 2)
SOMEVALS = CG_ASSUME + ["eight representative operand pairs; the instruction's result for all operand values is the obligation of its vm_* unit"]
for c in "add_ii sub_ii".split(): expr(c, ["P01"], 1)
for n in "add sub mul".split():
    for t in "ff if fi".split(): expr("%s_%s" % (n, t), ["P01"], assumptions=SOMEVALS)
for c in "mul_some div_ii div_ff mod".split(): expr(c, ["P01"], assumptions=SOMEVALS)
for c in "bor band shl shr lt_ii gt_ii lte_ii gte_ii equ neq not paren cast add_lit1 sub_lit1".split(): expr(c, ["P01"], 1)
for c in "lt_ff gt_ff lte_ff gte_ff fadd_lit1 fsub_lit1".split(): expr(c, ["P01"], assumptions=SOMEVALS)
expr("neg_lit", ["P01"], defs=LITDEFS + ["CASE=neg_lit"])
for c in "add_lit_at sub_lit_at neg_lit01 neg_int neg_float".split(): expr(c, ["P01"])
for c in "and_f and_t or_t or_f tern_t tern_f".split(): expr(c, ["P01"], 4)
for c in "callf0 callf1 callf3 call0 call1 call3 callv index_f index_s".split(): expr(c, ["P04"], 4)
for c in "rej_few rej_many rej_ffew rej_fmany rej_var rej_undef".split(): expr(c, ["P04"], 1, defs=CG_DEFS + ["CASE=" + c, "ALIGNS=1", "REJECT"])

def stmt(case, props, aligns=4, **k):
    kk = dict(defs=CG_DEFS + ["CASE=" + case, "ALIGNS=%d" % aligns] + (["REJECT"] if "rej" in case else []), replace=CG_REPLACE, unwind=62, cbmc=["--max-field-sensitivity-array-size", "256"], assumptions=CG_ASSUME, timeout=400, cost=4)
    kk.update(k)
    U("stmt_" + case, "h_stmt.c", props, ["CompileStatement", "PatchBreakContinue", "CompileGetLHS", "CompileCall", "CompileCallSymbolWithArgsPrepared", "GenerateJump", "PatchJumpLoc", "AddPCFileLineRecord"], **kk)
for c in "callf call".split(): stmt(c, ["P04"])
for c in "set_global decl_global set_local decl_local set_arg declconst field0 field1 field2 field_add index_f index_s inc_i dec_i inc_f dec_f".split(): stmt(c, ["P02"])
for n in "add sub mul div mod and or".split():
    for w in "lg": stmt("%s_%s" % (n, w), ["P02"])
for c in "rej_const rej_undecl rej_lhs rej_noset".split(): stmt(c, ["P02"], 1)
for c in "use block0 block3 block_ret if_t if_f ife_t ife_f ife_ret_t ife_ret_f while0 while1 while3 while_b while_fb while_c while_cb while_r while_empty for0 for1 for2 for_b for_fb for_c for_cb for_r break continue program".split(): stmt(c, ["P03"])
for c in "rej_init rej_step rej_break rej_continue program_rej proc_rejb proc_rejc".split(): stmt(c, ["P03"], 1)
for c in "patch_if patch_block patch_while patch_for patch_null".split(): stmt(c, ["P03"], 2, native=False)
for c in "ret retv proc0 proc2 proc_empty".split(): stmt(c, ["P04"])

# ------------------------------------------------------------------------------------------------- arrays
AR_ASSUME = ["arrays hold at most 2^29 elements", "realloc keeps the old contents and memmove/memcpy of whole elements move them (seen at one arbitrary element)"]
def arr(name, fn, call, defs, **k):
    stops = "STOPS" in defs
    kk = dict(replace=["memmove:move_spec", "memcpy:move_spec", "stb__sbgrowf:grow_spec"], unwind=5, assumptions=AR_ASSUME, timeout=300, cost=3,
              fallback=dict(defs=["SMALL=3"], unwind=9, bound="arrays of at most 3 elements, resized to at most 3", noreach=["loop"]))
    kk.update(k)
    if fn in ("ArrayResize", "InitArrayEx", "stb__sbgrowf"): defs = defs + ["INT_INDEX"]
    U("array_" + name, "h_array.c", ["P09"], [fn], defs=["__assert_fail=vc_assert_fail", "CALL=" + call] + (["NODATA=0"] if not any("NODATA" in d for d in defs) else []) + defs, **kk)
for stop in (0, 1):
    t, S = ("_out", ["STOPS"]) if stop else ("", [])
    arr("get" + t, "ArrayGet", "OUT=*ArrayGet(&AR,IDX)", ["OLDINDEX=(G>=0?G:IDX)", "RESULT=IMPLIES(G==IDX,same_bits(OUT,OLD))"] + S)
    arr("set" + t, "ArraySet", "ArraySet(&AR,IDX,V)", ["ELEM=(G==IDX?V:OLD)"] + S)
    arr("insert" + t, "ArrayInsert", "ArrayInsert(&AR,IDX,V)", ["NEWLEN=(LEN_+1)", "OLDINDEX=(G>IDX?G-1:G)", "ELEM=(G==IDX?V:OLD)"] + S)
    arr("remove" + t, "ArrayRemove", "ArrayRemove(&AR,IDX)", ["NEWLEN=(LEN_-1)", "OLDINDEX=(G>=IDX?G+1:G)"] + S)
    arr("pop" + t, "ArrayPop", "ArrayPop(&AR,&OUT)", ["INDEXES=LEN_>0", "NEWLEN=(LEN_-1)", "RESULT=IMPLIES(G==LEN_-1,same_bits(OUT,OLD))"] + S)
    arr("shift" + t, "ArrayShift", "ArrayShift(&AR,&OUT)", ["INDEXES=LEN_>0", "NEWLEN=(LEN_-1)", "OLDINDEX=(G>=0?G+1:0)", "RESULT=IMPLIES(G==-1,same_bits(OUT,OLD))"] + S)
    arr("resize" + t, "ArrayResize", "ArrayResize(&AR,IDX,V)", ["INDEXES=IDX>=0", "PRE=IDX<=MAXCAP", "NEWLEN=IDX", "ELEM=(G<LEN_?OLD:V)"] + S)
arr("push", "ArrayPush", "ArrayPush(&AR,V)", ["INDEXES=true", "NEWLEN=(LEN_+1)", "ELEM=(G==LEN_?V:OLD)"])
for n, call, d in [("insert_out", "ArrayInsert(&AR,IDX,V)", ["STOPS"]), ("remove_out", "ArrayRemove(&AR,IDX)", ["STOPS"]), ("get_out", "ArrayGet(&AR,IDX)", ["STOPS"]), ("set_out", "ArraySet(&AR,IDX,V)", ["STOPS"]),
                   ("pop_out", "ArrayPop(&AR,&OUT)", ["STOPS"]), ("shift_out", "ArrayShift(&AR,&OUT)", ["STOPS"]), ("resize", "ArrayResize(&AR,IDX,V)", ["INDEXES=IDX>=0&&IDX<=MAXCAP", "NEWLEN=IDX", "ELEM=V"]),
                   ("push", "ArrayPush(&AR,V)", ["INDEXES=true", "NEWLEN=1", "ELEM=V"]), ("clear", "ArrayClear(&AR)", ["INDEXES=true", "NEWLEN=0"]), ("len", "LENGTH=ArrayLen(&AR)", ["INDEXES=true", "RESULT=LENGTH==0"]),
                   ("destroy", "DestroyArray(&AR)", ["INDEXES=true", "DESTROY"])]:
    arr("none_" + n, call.split("(")[0].split("=")[-1], call, ["NODATA=1"] + d)
arr("grow", "stb__sbgrowf", "0", ["GROW", "INDEXES=IDX>=0&&IDX<=MAXCAP"], replace=[])
arr("grow_none", "stb__sbgrowf", "0", ["GROW", "NODATA=1", "INDEXES=IDX>=0&&IDX<=MAXCAP"], replace=[])
for n, fn, call, d in [("push", "ArrayPush", "ArrayPush(&AR,V)", ["INDEXES=true", "NEWLEN=(LEN_+1)", "ELEM=(G==LEN_?V:OLD)"])]:
    arr("moving_" + n, fn, call, ["SMALL=3", "MOVING"] + d, replace=["memmove:move_spec", "memcpy:move_spec"], bounded="at most 3 elements before the operation, storage that always moves when it grows", fallback=None, unwind=9)
arr("clear", "ArrayClear", "ArrayClear(&AR)", ["INDEXES=true", "NEWLEN=0"])
arr("init", "InitArrayEx", "InitArrayEx(&AR,AR.ctx,IDX,SRC)", ["INDEXES=IDX>=0&&IDX<=3", "NODATA=1", "NEWLEN=IDX", "ELEM=SRC[G]"])
arr("len", "ArrayLen", "LENGTH=ArrayLen(&AR)", ["INDEXES=true", "RESULT=LENGTH==LEN_"])
arr("destroy", "DestroyArray", "DestroyArray(&AR)", ["INDEXES=true", "DESTROY"])

# ------------------------------------------------------------------------------------------------- dictionaries
D_ASSUME = ["a table has 32*2^k slots, k = 0..24 (InitDict and Grow create no others)", "keys are not null and of a kind that can be hashed (HashValue stops the program otherwise)",
            "equal keys have equal hashes (HashValue, obligation of property P07)"]
def dct(name, fn, op, replace, **k):
    kk = dict(replace=["HashValue:HashValue_spec"] + replace, unwind=3, assumptions=D_ASSUME, timeout=300, cost=3,
              fallback=dict(defs=["SIZES=1"], unwind=36, bound="tables of 32 slots, any contents", noreach=["loop"]))
    kk.update(k)
    for b in range(0, 25, 5):
        U("dict_%s%s" % (name, b or ""), "h_dict.c", ["P08"], fn, defs=["OP_" + op, "BASE=%d" % b], **kk)
dct("set", ["DictSet"], "SET", ["Grow:Grow_spec"])
dct("set_full", ["DictSet"], "SET_FULL", ["Grow:Grow_spec"])
dct("get", ["DictGet"], "GET", [])
dct("remove", ["DictRemove"], "REMOVE", ["DictSet:DictSet_spec"])
dct("clear", ["DictClear"], "CLEAR", [])
dct("grow", ["Grow", "Init"], "GROW", ["DictSet:DictSet_spec"])
dct("init", ["InitDict", "Init"], "INIT", [])
dct("destroy", ["DestroyDict"], "DESTROY", [])

# ------------------------------------------------------------------------------------------------- calls from the host
CALL_ASSUME = ["the called function keeps to its frame: it changes only its arguments and what lies above them, and returns by popping its frame (obligations of property P04)",
               "TINY_THREAD_STACK_SIZE=8 and TINY_THREAD_MAX_CALL_DEPTH=4 (build options of the library)"]
def hcall(name, defs, **k):
    kk = dict(replace=["ExecuteCycle:ExecuteCycle_spec"], unwind=10, assumptions=CALL_ASSUME, timeout=300, cost=3)
    kk.update(k)
    U("hostcall" + name, "h_call.c", ["P05"], ["Tiny_CallFunction", "AllocGlobals", "DoPush", "DoPushIndir"],
      defs=["TINY_THREAD_STACK_SIZE=8", "TINY_THREAD_MAX_CALL_DEPTH=4", "__assert_fail=vc_assert_fail"] + defs, **kk)
hcall("", [])
hcall("_args_on_stack", ["ARGS_ON_STACK"])
hcall("_stops", ["STOPS"], native=False)
hcall("_stops_args_on_stack", ["STOPS", "ARGS_ON_STACK"], native=False)

# ------------------------------------------------------------------------------------------------- garbage collection
GC_ASSUME = ["a native object's protectFromGC callback passes on every value the object refers to (obligation for the library's arrays and dictionaries; host types are the host's)",
             "the C stack suffices for marking: marking recurses once per nesting level of the object graph"]
def gc(name, fns, defs, replace=[], **k):
    kk = dict(replace=replace, unwind=12, assumptions=GC_ASSUME, timeout=300, cost=3)
    kk.update(k)
    U("gc_" + name, "h_gc.c", ["P06"], fns, defs=["TINY_THREAD_STACK_SIZE=8", "TINY_THREAD_MAX_CALL_DEPTH=4", "HOOKED=1"] + defs, **kk)
gc("mark_leaf", ["Tiny_ProtectFromGC"], ["MARK"], ["Tiny_ProtectFromGC:Protect_spec", "VC_REAL_Tiny_ProtectFromGC:Tiny_ProtectFromGC"])
gc("mark", ["Tiny_ProtectFromGC"], ["MARK", "STRUCTS"], ["Tiny_ProtectFromGC:Protect_spec", "VC_REAL_Tiny_ProtectFromGC:Tiny_ProtectFromGC"], unwind=5,
   fallback=dict(defs=["SMALL=3"], unwind=12, bound="structs with at most 3 fields", noreach=["loop"]))
FB = dict(defs=["SMALL=3", "HOOKED=0"], unwind=12, bound="at most 3 items", noreach=["loop"])
gc("markall", ["MarkAll"], ["MARKALL"], ["Tiny_ProtectFromGC:Protect_spec"], native_file="h_gcwhole.c", fallback=FB)
gc("markarray", ["ArrayMark"], ["ARRAYMARK"], ["Tiny_ProtectFromGC:Protect_spec", "ArrayGet:Get_spec", "ArrayLen:Len_spec"], native_file="h_gcwhole.c", fallback=FB)
gc("markdict", ["DictProtectFromGC"], ["DICTMARK"], ["Tiny_ProtectFromGC:Protect_spec", "ArrayGet:Get_spec"], native_file="h_gcwhole.c", fallback=FB)
gc("sweep", ["Sweep"], ["SWEEP"], ["DeleteObject:Delete_spec"], native_file="h_gcwhole.c", fallback=FB)
gc("destroy", ["Tiny_DestroyThread"], ["DESTROY"], ["DeleteObject:Delete_spec"], native_file="h_gcwhole.c", fallback=FB)
gc("delete", ["DeleteObject"], ["DELETE"])
gc("collect", ["GarbageCollect"], ["COLLECT"], ["MarkAll:MarkAll_spec", "Sweep:Sweep_spec"], native_file="h_gcwhole.c")
gc("new", ["NewObject", "NewStringObjectEmbedString", "Tiny_NewNative", "Tiny_NewString", "Tiny_NewStringCopy"], ["NEW"], ["GarbageCollect:GarbageCollect_spec"])

# ------------------------------------------------------------------------------------------------- equality
EQ_ASSUME = ["memcmp, strncmp, strcmp and strlen of the C library do what ISO C says"]
def eq(name, fns, defs, replace=[], **k):
    kk = dict(replace=replace, unwind=6, assumptions=EQ_ASSUME, timeout=300, cost=2)
    kk.update(k)
    U("eq_" + name, "h_equal.c", ["P07"], fns, defs=defs, **kk)
CMPS = ["memcmp:memcmp_spec", "strncmp:strncmp_spec", "strcmp:strcmp_spec", "strlen:strlen_spec"]
eq("values", ["Tiny_AreValuesEqual", "Tiny_StringLen", "Tiny_ToString"], ["EQUAL"], CMPS)
eq("laws", ["Tiny_AreValuesEqual"], ["LAWS"])
eq("hash", ["HashValue", "Tiny_ToAddr", "Tiny_ToString", "Tiny_StringLen"], ["HASH"], CMPS + ["HashBytes:HashBytes_spec"])
eq("hash_bytes", ["HashBytes"], ["HASHBYTES"], fallback=dict(defs=["SMALL"], unwind=7, bound="texts of at most 4 bytes"))

# ------------------------------------------------------------------------------------------------- types
TY_ASSUME = ["the parts of a construct enter through the contract of ResolveTypes: a part gets its type, or the program is rejected",
             "types are interned: two different types of one kind have different names, and there is one nullable type per type (units name_*)"]
def types(name, fns, defs, replace=[], **k):
    kk = dict(defs=["FLAT_VALUES", "TINY_MAX_NESTED_COMPILE_CALLS=1", "TINY_MAX_COMPILE_ERR_MSG_SZ=64"] + defs, unwind=13, assumptions=TY_ASSUME, timeout=300, cost=2,
              replace=["ResolveTypes:ResolveTypes_spec", "VC_REAL_ResolveTypes:ResolveTypes", "ReportErrorE:ReportErrorE_spec", "IsTagAssignableTo:Flows_spec", "VC_REAL_IsTagAssignableTo:IsTagAssignableTo", "GetPrimTag:Prim_spec", "VC_REAL_GetPrimTag:GetPrimTag"] + replace)
    kk.update(k)
    U("type_" + name, "h_types.c", ["P11"], fns, **kk)
types("prim", ["GetPrimTag"], ["PRIM"])
types("flows", ["IsTagAssignableTo"], ["FLOWS"], replace=[])
for c in "leaf paren proc".split(): types(c, ["ResolveTypes"], [c.upper(), "NOREJECT"])
for c in "id arith bits logic order equality declare unary ifs while for ternary return cast".split(): types(c, ["ResolveTypes", "IsTagAssignableTo"], [c.upper()])
types("assign", ["ResolveTypes", "IsTagAssignableTo"], ["ASSIGN"])
types("assign_index", ["ResolveTypes", "IsTagAssignableTo", "CheckIndexArguments"], ["ASSIGN", "INDEXED"])
types("dot", ["ResolveTypes"], ["DOT"], ["GetFieldTag:GetFieldTag_spec"])
types("index", ["ResolveTypes", "CheckIndexArguments"], ["INDEX"], ["snprintf:snprintf_spec", "ReferenceFunction:ReferenceFunction_spec"])
types("block", ["ResolveTypes"], ["BLOCK", "NOREJECT", "HOOKED=1"], fallback=dict(defs=["HOOKED=0"], unwind=13, bound="at most 2 statements", noreach=["loop"]))
types("call", ["ResolveTypes", "IsTagAssignableTo"], ["ARGS", "HOOKED=1", "SMALL=1<<20"], ["ReferenceFunction:ReferenceFunction_spec"],
      fallback=dict(defs=["HOOKED=0", "SMALL=3"], unwind=13, bound="at most 3 arguments and parameters", noreach=["loop"]))
types("ctor", ["ResolveTypes", "IsTagAssignableTo"], ["CTOR", "HOOKED=1", "SMALL=1<<20"], ["strcmp:strcmp_spec"],
      fallback=dict(defs=["HOOKED=0", "SMALL=3"], unwind=13, bound="at most 3 arguments and fields", noreach=["loop", "loop2", "loop3"]))

# ------------------------------------------------------------------------------------------------- names
SC_ASSUME = ["strcmp of the C library does what ISO C says", "at most 2^20 symbols per table (table sizes are 32 bit ints)"]
def scope(name, fns, case, rejects=False, **k):
    kk = dict(defs=["HOOKED=1", "FLAT_VALUES", "TINY_MAX_NESTED_COMPILE_CALLS=1", "TINY_MAX_COMPILE_ERR_MSG_SZ=64", case] + (["REJECTS"] if rejects else []), unwind=6, assumptions=SC_ASSUME, timeout=300, cost=2,
              replace=["strcmp:strcmp_spec", "Symbol_create:Create_spec", "ReportErrorSL:ReportErrorSL_spec", "stb__sbgrowf:Grow_spec"],
              fallback=dict(defs=["HOOKED=0"], unwind=6, bound="at most 3 symbols per table", noreach=["loop"]))
    kk.update(k)
    U("name_" + name, "h_scope.c", ["P12"], fns, **kk)
scope("variable", ["ReferenceVariable"], "REFVAR")
scope("function", ["ReferenceFunction"], "REFFN")
scope("declare_local", ["DeclareLocal"], "DLOCAL", True)
scope("declare_arg", ["DeclareArgument"], "DARG", True)
scope("declare_global", ["DeclareGlobalVar", "ReferenceVariable"], "DGLOBAL", True)
scope("declare_const", ["DeclareConst", "ReferenceVariable"], "DCONST", True)
scope("declare_function", ["DeclareFunction"], "DFUNC", fallback=None)
scope("close", ["OpenScope", "CloseScope"], "CLOSE")

# ------------------------------------------------------------------------------------------------- positions, diagnostics
PD_DEFS = ["HOOKED=1", "FLAT_VALUES", "TINY_MAX_NESTED_COMPILE_CALLS=2", "TINY_MAX_COMPILE_ERR_MSG_SZ=64", "TINY_THREAD_STACK_SIZE=2", "TINY_THREAD_MAX_CALL_DEPTH=1"]
def pos(name, fns, case, replace=[], **k):
    kk = dict(defs=PD_DEFS + [case], unwind=6, timeout=300, cost=2, replace=replace, assumptions=["strchr of the C library does what ISO C says", "texts and tables of at most 2^20 entries (positions are 32 bit)"],
              fallback=dict(defs=["HOOKED=0"], unwind=12, bound="texts of at most 8 bytes, tables of at most 5 records", noreach=["loop", "loop2"], replace=[]))
    kk.update(k)
    U("pos_" + name, "h_pos.c", ["P15"], fns, **kk)
pos("friendly", ["Tiny_PosToFriendlyPos"], "FRIENDLY", ["strchr:strchr_spec"])
pos("line_number", ["Tiny_TranslatePosToLineNumber"], "LINENUMBER")
pos("table", ["GetFileLineForPC", "Tiny_GetExecutingFileLine"], "TABLE")
pos("record", ["AddPCFileLineRecord"], "ADD", ["stb__sbgrowf:Grow_spec"], fallback=None)
for n in (0, 1, 3):
    pos("record_moved_%d" % n, ["AddPCFileLineRecord"], "ADD", defs=PD_DEFS + ["ADD", "MOVED=%d" % n], replace=["stb__sbgrowf:Grow_spec"], fallback=None, bounded="a table of %d records that moves when it grows" % n)
pos("statement", ["CompileStatement"], "STATEMENT", ["AddPCFileLineRecord:Record_spec", "RegisterString:Register_spec", "GenerateCode:GenerateCode_spec", "GenerateJump:GenerateJump_spec", "CompileExpr:CompileExpr_spec", "CompileGetLHS:CompileGetLHS_spec",
     "CompileCall:CompileCall_spec", "CompileStatement:CompileStatement_spec", "VC_REAL_CompileStatement:CompileStatement", "ReportErrorE:ReportErrorE_spec"], fallback=None, native=False)
U("diag_format", "h_diag.c", ["P16"], ["Tiny_FormatErrorV"], defs=PD_DEFS + ["FORMAT"], unwind=4, timeout=300, cost=3,
  replace=["snprintf:snprintf_spec", "vsnprintf:vsnprintf_spec", "Tiny_TranslatePosToLineNumber:Line_spec"],
  assumptions=["snprintf and vsnprintf of the C library do what ISO C says and do not fail"],
  fallback=dict(defs=["HOOKED=0", "SMALL=4"], unwind=7, bound="sources of at most 4 bytes", noreach=["loop", "loop2"]), native_defs=["SMALL=8"])
U("diag_report", "h_diag.c", ["P16"], ["ReportErrorSL", "ReportErrorL", "ReportErrorE"], defs=PD_DEFS + ["REPORT"], unwind=4, timeout=100, cost=1, native=False,
  replace=["Tiny_FormatErrorV:Format_spec", "longjmp:longjmp_spec", "_longjmp:longjmp_spec"])

# ------------------------------------------------------------------------------------------------- the parser
PA_ASSUME = ["the lexer enters through its contract: Tiny_GetToken reads the next token, whatever it is", "the parts of a construct enter through the contracts of the parse functions that read them"]
PA_TOK = ["Tiny_GetToken:GetToken_spec", "ReportErrorSL:ReportErrorSL_spec", "ReportErrorL:ReportErrorL_spec", "Tiny_ArenaAlloc:Alloc_spec"]
PA_NODES = ["CreateExprStringNode:StringNode_spec"]
PA_EXPR = ["ParseExpr:ParseExpr_spec"]
PA_SCOPE = ["OpenScope:OpenScope_spec", "CloseScope:CloseScope_spec"]
PA_STMT = ["ParseStatement:ParseStatement_spec"]
PA_REAL = ["VC_REAL_ParseStatement:ParseStatement"]
PA_HOOKS = dict(binary=["bin"], suffix=["suffix"], call=["call"], block=["block"], new=["new"], cast=["cast_dot"], use=["use"], program=["program"],
                struct_first=["struct", "names"], struct_more=["struct", "names"], func_first=["params", "declare"])
def parse(name, fns, case, replace=[], rejects=True, props=["P21"], **k):
    kk = dict(defs=PD_DEFS + [case] + (["REJECTS"] if rejects else []), unwind=14, timeout=300, cost=2, replace=replace, assumptions=PA_ASSUME, fallback=None)
    hooks = PA_HOOKS.get("func_first" if name.startswith("func") else name)
    if hooks:
        kk["fallback"] = dict(defs=[], unwind=14, bound="generated programs", native=True, hooks=["parse_" + h for h in hooks])
    kk.update(k)
    U("parse_" + name, "h_parse.c", props, fns, **kk)
GE = ["GetNextToken", "GetExpectTokenSL", "ExpectTokenSL", "ExpectTokenL", "Expr_create"]
parse("precedence", ["GetTokenPrec"], "PREC", [], False)
parse("binary", ["ParseBinRhs", "GetTokenPrec", "GetNextToken", "Expr_create"], "BINRHS_", ["Tiny_GetToken:GetToken_op", "Tiny_ArenaAlloc:Alloc_spec", "ParseFactor:ParseFactor_spec", "ParseBinRhs:BinRhs_spec", "VC_REAL_ParseBinRhs:ParseBinRhs"], False)
parse("expr", ["ParseExpr"], "EXPR_", ["ParseFactor:ParseFactor_spec", "ParseBinRhs:BinRhs_spec"], False)
parse("factor", ["ParseFactor"], "FACTOR_", ["ParseValue:ParseValue_spec", "ParseSuffix:Suffix_spec"], False)
parse("suffix", ["ParseSuffix"] + GE, "SUFFIX_", PA_TOK + PA_NODES + PA_EXPR + ["ParseCall:Call_spec"])
parse("call", ["ParseCall"] + GE, "CALL_", PA_TOK + PA_EXPR)
parse("literal", ["ParseValue"] + GE, "VALUE_LITERAL", PA_TOK + ["RegisterString:Register_spec"], False)
parse("name", ["ParseValue"] + GE, "VALUE_IDENT", PA_TOK + PA_NODES + ["ParseCall:Call_spec", "ReferenceVariable:Variable_spec"], False)
parse("unary", ["ParseValue"] + GE, "VALUE_UNARY", PA_TOK + ["ParseFactor:ParseFactor_spec"], False)
parse("paren", ["ParseValue"] + GE, "VALUE_PAREN", PA_TOK + PA_EXPR)
parse("ternary", ["ParseValue"] + GE, "VALUE_TERNARY", PA_TOK + PA_EXPR)
parse("other", ["ParseValue"] + GE, "VALUE_OTHER", PA_TOK)
parse("cast", ["ParseValue"] + GE, "VALUE_CAST", PA_TOK + PA_NODES + PA_EXPR + ["ParseTypeSL:ParseType_spec"])
parse("new", ["ParseValue"] + GE, "VALUE_NEW", PA_TOK + PA_NODES + PA_EXPR + ["DeclareStruct:Struct_spec"])
parse("if", ["ParseIf"] + GE, "IF_", PA_TOK + PA_EXPR + PA_STMT, False)
parse("block", ["ParseBlock"] + GE, "BLOCK_", PA_TOK + PA_STMT + PA_SCOPE, False)
parse("while", ["ParseStatement"] + GE, "WHILE_", PA_TOK + PA_EXPR + PA_STMT + PA_REAL + PA_SCOPE, False)
parse("for", ["ParseStatement"] + GE, "FOR_", PA_TOK + PA_EXPR + PA_STMT + PA_REAL + PA_SCOPE)
parse("return", ["ParseStatement"] + GE, "RETURN_", PA_TOK + PA_EXPR + PA_STMT + PA_REAL)
parse("jumps", ["ParseStatement"] + GE, "JUMPS_", PA_TOK + PA_STMT + PA_REAL, False)
parse("kinds", ["ParseStatement"] + GE, "KINDS_", PA_STMT + PA_REAL + ["ParseBlock:Block_spec", "ParseFunc:Func_spec", "ParseIf:If_spec"], False)
parse("simple", ["ParseStatement", "GetTokenPrec"] + GE, "SIMPLE_", PA_TOK + PA_STMT + PA_REAL + ["ParseFactor:Factor_simple", "ParseExpr:Expr_simple", "DeclareLocal:Local_spec", "DeclareGlobalVar:Global_spec", "DeclareConst:Const_spec", "ParseTypeSL:ParseType_spec"])
parse("program", ["ParseProgram"] + GE, "PROGRAM_", PA_TOK + PA_STMT + ["ParseStruct:ParseStruct_spec"], False)
parse("type", ["ParseTypeL", "ParseTypeSL", "ExpectTokenL"], "TYPE_", [r.replace("GetToken_spec", "GetToken_type") for r in PA_TOK] + ["GetTagFromName:TagFromName_spec", "GetOrCreateNullable:Nullable_spec"])
parse("use", ["ParseStatement"] + GE, "USE_", PA_TOK + PA_NODES + PA_STMT + PA_REAL + ["strcmp:strcmp_spec"])
PA_STRUCT = PA_TOK + ["DeclareStruct:Struct_spec", "ParseTypeSL:ParseType_spec", "Symbol_create:Create_spec", "strcmp:strcmp_spec", "stb__sbgrowf:Grow_spec"]
parse("struct_first", ["ParseStruct"] + GE, "STRUCT_", PA_STRUCT)
parse("struct_more", ["ParseStruct"] + GE, "STRUCT_", PA_STRUCT, defs=PD_DEFS + ["STRUCT_", "MORE", "REJECTS"])
PA_FUNC = PA_TOK + ["DeclareFunction:Function_spec", "DeclareArgument:Argument_spec", "ParseTypeSL:ParseType_spec", "CloneString:Clone_spec", "TFree:Free_spec", "stb__sbgrowf:Grow_spec", "ParseStatement:Body_spec"] + PA_SCOPE
parse("func_first", ["ParseFunc"] + GE, "FUNC_", PA_FUNC)
for n in (1, 2, 5):
    parse("func_more_%d" % n, ["ParseFunc"] + GE, "FUNC_", PA_FUNC, defs=PD_DEFS + ["FUNC_", "MORE=%d" % n, "REJECTS"], bounded="one more parameter behind %d others" % n)
parse("create", ["Expr_create"], "CREATE_", ["Tiny_ArenaAlloc:Arena_spec"], False)

# ------------------------------------------------------------------------------------------------- the disassembler
U("disasm_one", "h_disasm.c", ["P17"], ["Tiny_DisasmOne"], defs=PD_DEFS, unwind=50, timeout=300, cost=5, replace=["snprintf:snprintf_spec", "GetFileLineForPC:FileLine_spec", "memcpy:memcpy_spec"], cbmc=["--object-bits", "12"],
  fallback=dict(defs=[], unwind=50, bound="generated programs", native=True, hooks=["disasm_name"]),
  assumptions=["snprintf and memcpy of the C library do what ISO C says", "programs, constant tables and symbol tables of at most 2^20 entries, made of whole instructions whose indexes exist"])
# the interpreter's side of the table: the instructions with operands
for u in UNITS:
    if u.name.startswith("vm_") and any("put8" in d or "put32" in d or "put64" in d for d in u.defs) and "P17" not in u.props:
        u.props = list(u.props) + ["P17"]

# ------------------------------------------------------------------------------------------------- lookup by name
def lookup(name, props, fns, case, replace=(), **k):
    kk = dict(defs=["HOOKED=1", "FLAT_VALUES", "TINY_MAX_NESTED_COMPILE_CALLS=1", "TINY_MAX_COMPILE_ERR_MSG_SZ=64", case], unwind=8, assumptions=SC_ASSUME, timeout=300, cost=2,
              replace=["strcmp:strcmp_spec"] + list(replace),
              fallback=dict(defs=["HOOKED=0"], unwind=8, bound="at most 3 entries", noreach=["loop"]))
    kk.update(k)
    U("lookup_" + name, "h_lookup.c", props, fns, **kk)
lookup("field", ["P02", "P11"], ["GetFieldTag"], "FIELD")
lookup("type", ["P11"], ["GetTagFromName", "GetPrimTag"], "TAG", ["DeclareStruct:Struct_spec"])
lookup("nullable", ["P11"], ["GetOrCreateNullable"], "NULLABLE", ["Symbol_create:Create_spec", "stb__sbgrowf:Grow_spec", "GetTagName:TagName_spec", "snprintf:snprintf_spec"])
lookup("struct", ["P11"], ["GetStructTag"], "GETSTRUCT", defs=["HOOKED=0", "FLAT_VALUES", "TINY_MAX_NESTED_COMPILE_CALLS=1", "TINY_MAX_COMPILE_ERR_MSG_SZ=64", "GETSTRUCT"],
       fallback=None, bounded="at most 3 symbols")
lookup("declare_struct", ["P11"], ["DeclareStruct"], "DSTRUCT", ["GetStructTag:GetStruct_spec", "Symbol_create:Create_spec", "stb__sbgrowf:Grow_spec"], fallback=None)
lookup("string", ["P02"], ["RegisterString"], "REGSTR", ["CloneString:Clone_spec"])

# ------------------------------------------------------------------------------------------------- lexer
LX_ASSUME = ["isspace, isalpha, isalnum, isdigit, isxdigit, strcmp, strtod, strtoll and strtoull of the C library do what ISO C says in the C locale",
             "texts of at most 2^20 bytes", "consecutive comment lines recurse: the C stack suffices for them"]
CTYPE = [f + ":" + f + "_spec" for f in "isspace isalpha isalnum isdigit isxdigit strtod".split()]
def lex(name, defs, noreach=("loop",), replace=(), **k):
    kk = dict(defs=["HOOKED=1", "__NO_CTYPE"] + defs, unwind=45, assumptions=LX_ASSUME, timeout=300, cost=2,
              replace=CTYPE + ["strcmp:strcmp_spec", "strtoull:strtoull_spec", "strtoll:strtoll_spec", "stb__sbgrowf:Grow_spec", "Tiny_GetToken:GetToken_spec"] + list(replace),
              search=4000, fallback=dict(defs=["HOOKED=0"], unwind=45, bound="generated texts", noreach=list(noreach), native=True, hooks=["lex_" + h for h in "space comment ident number string".split()]))
    kk.update(k)
    U("lex_" + name, "h_lex.c", ["P14"], ["GetToken", "GetChar"], **kk)
lex("operators", ["PUNCT"], ["bad"])
lex("operators_fresh", ["PUNCT", "FRESH"], ["bad"])
lex("space", ["SPACE"], ["loop", "token"])
lex("comment", ["COMMENT"], ["loop", "next"])
lex("word", ["IDENT"])
lex("number", ["NUMBER"])
lex("char", ["CHARLIT"], ["char"])
lex("string", ["STRING"], ["loop", "empty", "unclosed"])

# ------------------------------------------------------------------------------------------------- string functions
STR_ASSUME = ["strlen, memchr, memcpy, strtod, strtoll and snprintf of the C library do what ISO C says; %g prints at most 13 characters, %lld at most 20",
              "strings shorter than 2^31 - 1 bytes, each followed by a NUL (tiny.h leaves this to a host that makes its own)", "allocation succeeds",
              "an assertion that fails stops the program (the build keeps assertions)"]
def st(name, fns, case, replace=(), **k):
    kk = dict(defs=["HOOKED=1", "__assert_fail=vc_assert_fail", case], unwind=40, assumptions=STR_ASSUME, timeout=200, cost=2,
              replace=["strlen:strlen_spec", "Tiny_NewString:NewString_spec"] + list(replace))
    kk.update(k)
    U("str_" + name, "h_str.c", ["P18"], fns, **kk)
st("length", ["Strlen", "Tiny_StringLen"], "STRLEN")
st("index", ["Stridx", "Tiny_ToString", "Tiny_StringLen"], "STRIDX")
st("find", ["Strchr"], "STRCHR", ["memchr:memchr_spec"])
st("sub", ["Lib_Substr"], "SUBSTR", fallback=dict(defs=["HOOKED=0"], unwind=12, bound="generated strings", noreach=["loop"], native=True, hooks=["substr"]))
st("concat", ["Strcat"], "STRCAT", ["memcpy:memcpy_spec"], fallback=dict(defs=["HOOKED=0"], unwind=12, bound="generated strings", noreach=["length", "copy"], native=True, hooks=["strcat_length", "strcat_copy"]))
st("numbers", ["Lib_Ston", "Lib_Stoi"], "NUMBERS", ["strtod:strtod_spec", "strtoll:strtoll_spec"])
st("prints", ["Lib_Ntos", "Lib_IntToStr"], "PRINTS", ["snprintf:snprintf_spec", "Tiny_NewStringCopy:NewStringCopy_spec"])
st("json", ["Lib_PrimitiveToJson"], "JSON", ["Strcat:Strcat_spec", "Lib_IntToStr:IntToStr_spec", "Lib_Ntos:Ntos_spec"])

# ------------------------------------------------------------------------------------------------- container functions
def ct(name, fns, case, replace=(), **k):
    kk = dict(defs=["HOOKED=1", "FLAT_VALUES", "__assert_fail=vc_assert_fail", case], unwind=50, timeout=200, cost=2, replace=list(replace),
              assumptions=["array.c and dict.c enter through the contracts proved for P09 and P08", "qsort, floor, ceil, snprintf and vsnprintf of the C library do what ISO C says", "an assertion that fails stops the program (the build keeps assertions)"])
    kk.update(k)
    U("cont_" + name, "h_cont.c", ["P19"], fns, **kk)
CT_ARR = ["Array%s:%s_spec" % (f, f) for f in "Len Clear Resize Push Pop Shift Insert Remove Set Get".split()]
CT_DICT = ["Dict%s:D%s_spec" % (f, f) for f in "Set Get Remove Clear".split()]
CT_NEW = ["InitArray:Init_spec", "InitDict:DInit_spec", "Tiny_NewNative:Native_spec", "ArrayPush:Push_spec", "ArrayGet:Get_spec"]
ct("array", ["Lib_Array" + f for f in "Len Clear Resize ResizeFill Push Get Set Pop Shift Remove Insert".split()], "ARRAY", CT_ARR)
ct("create", ["CreateArrayEx", "CreateArray", "CreatePrimitiveArray"], "CREATE", defs=["HOOKED=1", "__assert_fail=vc_assert_fail", "CREATE"], replace= ["InitArrayEx:InitEx_spec", "Tiny_NewNative:Native_spec"])
ct("sort", ["Lib_ArraySortInt"], "SORT", ["qsort:qsort_spec", "ArrayLen:Len_spec"])
ct("compare", ["CompareInts"], "COMPARE")
ct("dict", ["Lib_Dict" + f for f in "Put Exists Get Remove Clear".split()], "DICT", CT_DICT)
CT_FB = lambda *h: dict(defs=["HOOKED=0"], unwind=12, bound="generated containers", noreach=["loop"], native=True, hooks=list(h))
ct("dict_create", ["CreateDict"], "DICTCREATE", ["InitDict:DInit_spec", "Tiny_NewNative:Native_spec", "DictSet:DSet_spec", "exit:exit_spec"], fallback=CT_FB("dict_create"))
ct("dict_keys", ["Lib_DictKeys"], "KEYS", CT_NEW, fallback=CT_FB("dict_keys"))
ct("dict_values", ["Lib_DictValues"], "VALUES", CT_NEW, fallback=CT_FB("dict_values"))
ct("numbers", ["Lib_Floor", "Lib_Ceil", "Lib_IntToI64"], "NUMBERS", ["floor:floor_spec", "ceil:ceil_spec"])
ct("append", ["AppendFormat"], "APPENDS", ["vsnprintf:vsnprintf_spec"])
ct("macro_array", ["ArrayMacroFunction"], "MACRO", ["snprintf:snprintf_spec", "Tiny_FindTypeSymbol:Find_spec", "Tiny_RegisterType:Register_spec", "Tiny_BindFunction:Bind_spec"])
