"""Thin ctypes binding to the installed libLLVM-18 C API (only what ir2c.py needs)."""
import ctypes as C, ctypes.util, glob, os

def _find():
    for p in ("/usr/lib/llvm-18/lib/libLLVM.so.1", "/usr/lib/llvm-18/lib/libLLVM-18.so",
              "/usr/lib/x86_64-linux-gnu/libLLVM.so.18.1"):
        if os.path.exists(p):
            return p
    raise RuntimeError("libLLVM-18 not found")

L = C.CDLL(_find())
P = C.c_void_p

def _f(name, res, *args):
    f = getattr(L, "LLVM" + name)
    f.restype = res
    f.argtypes = list(args)
    return f

u = C.c_uint
ContextCreate = _f("ContextCreate", P)
CreateMemoryBufferWithContentsOfFile = _f("CreateMemoryBufferWithContentsOfFile", C.c_int, C.c_char_p, C.POINTER(P), C.POINTER(C.c_char_p))
ParseIRInContext = _f("ParseIRInContext", C.c_int, P, P, C.POINTER(P), C.POINTER(C.c_char_p))
GetFirstFunction = _f("GetFirstFunction", P, P)
GetNextFunction = _f("GetNextFunction", P, P)
GetFirstGlobal = _f("GetFirstGlobal", P, P)
GetNextGlobal = _f("GetNextGlobal", P, P)
GetFirstGlobalAlias = _f("GetFirstGlobalAlias", P, P, P) if False else _f("GetFirstGlobalAlias", P, P)
GetNextGlobalAlias = _f("GetNextGlobalAlias", P, P)
AliasGetAliasee = _f("AliasGetAliasee", P, P)
GetValueName2 = _f("GetValueName2", C.c_void_p, P, C.POINTER(C.c_size_t))
IsDeclaration = _f("IsDeclaration", C.c_int, P)
GetInitializer = _f("GetInitializer", P, P)
IsGlobalConstant = _f("IsGlobalConstant", C.c_int, P)
GlobalGetValueType = _f("GlobalGetValueType", P, P)
CountParams = _f("CountParams", u, P)
GetParam = _f("GetParam", P, P, u)
GetFirstBasicBlock = _f("GetFirstBasicBlock", P, P)
GetNextBasicBlock = _f("GetNextBasicBlock", P, P)
GetFirstInstruction = _f("GetFirstInstruction", P, P)
GetNextInstruction = _f("GetNextInstruction", P, P)
GetInstructionOpcode = _f("GetInstructionOpcode", u, P)
GetNumOperands = _f("GetNumOperands", C.c_int, P)
GetOperand = _f("GetOperand", P, P, u)
TypeOf = _f("TypeOf", P, P)
GetTypeKind = _f("GetTypeKind", u, P)
GetIntTypeWidth = _f("GetIntTypeWidth", u, P)
GetElementType = _f("GetElementType", P, P)
GetArrayLength2 = _f("GetArrayLength2", C.c_uint64, P)
GetVectorSize = _f("GetVectorSize", u, P)
CountStructElementTypes = _f("CountStructElementTypes", u, P)
StructGetTypeAtIndex = _f("StructGetTypeAtIndex", P, P, u)
GetStructName = _f("GetStructName", C.c_char_p, P)
IsPackedStruct = _f("IsPackedStruct", C.c_int, P)
IsOpaqueStruct = _f("IsOpaqueStruct", C.c_int, P)
GetReturnType = _f("GetReturnType", P, P)
IsFunctionVarArg = _f("IsFunctionVarArg", C.c_int, P)
CountParamTypes = _f("CountParamTypes", u, P)
GetValueKind = _f("GetValueKind", u, P)
ConstIntGetZExtValue = _f("ConstIntGetZExtValue", C.c_uint64, P)
PrintValueToString = _f("PrintValueToString", C.c_void_p, P)
PrintTypeToString = _f("PrintTypeToString", C.c_void_p, P)
DisposeMessage = _f("DisposeMessage", None, C.c_void_p)
GetICmpPredicate = _f("GetICmpPredicate", u, P)
GetFCmpPredicate = _f("GetFCmpPredicate", u, P)
GetConstOpcode = _f("GetConstOpcode", u, P)
GetGEPSourceElementType = _f("GetGEPSourceElementType", P, P)
GetNumIndices = _f("GetNumIndices", u, P)
GetIndices = _f("GetIndices", C.POINTER(u), P)
CountIncoming = _f("CountIncoming", u, P)
GetIncomingValue = _f("GetIncomingValue", P, P, u)
GetIncomingBlock = _f("GetIncomingBlock", P, P, u)
GetNumSuccessors = _f("GetNumSuccessors", u, P)
GetSuccessor = _f("GetSuccessor", P, P, u)
IsConditional = _f("IsConditional", C.c_int, P)
GetCondition = _f("GetCondition", P, P)
GetCalledValue = _f("GetCalledValue", P, P)
GetCalledFunctionType = _f("GetCalledFunctionType", P, P)
GetNumArgOperands = _f("GetNumArgOperands", u, P)
GetNormalDest = _f("GetNormalDest", P, P)
GetAllocatedType = _f("GetAllocatedType", P, P)
GetVolatile = _f("GetVolatile", C.c_int, P)
GetOrdering = _f("GetOrdering", u, P)
GetAtomicRMWBinOp = _f("GetAtomicRMWBinOp", u, P)
GetWeak = _f("GetWeak", C.c_int, P)
GetNumMaskElements = _f("GetNumMaskElements", u, P)
GetMaskValue = _f("GetMaskValue", C.c_int, P, u)
IsAString = _f("IsConstantString", C.c_int, P)
GetAsString = _f("GetAsString", C.c_void_p, P, C.POINTER(C.c_size_t))
GetElementAsConstant = _f("GetElementAsConstant", P, P, u)
GetAggregateElement = _f("GetAggregateElement", P, P, u)
GetModuleDataLayout = _f("GetModuleDataLayout", P, P)
ABISizeOfType = _f("ABISizeOfType", C.c_ulonglong, P, P)
OffsetOfElement = _f("OffsetOfElement", C.c_ulonglong, P, P, u)
GetEnumAttributeKindForName = _f("GetEnumAttributeKindForName", u, C.c_char_p, C.c_size_t)
GetCallSiteEnumAttribute = _f("GetCallSiteEnumAttribute", P, P, u, u)
GetTypeAttributeValue = _f("GetTypeAttributeValue", P, P)
GetInlineAsmAsmString = None
GetNamedFunction = _f("GetNamedFunction", P, P, C.c_char_p)
GetBasicBlockParent = _f("GetBasicBlockParent", P, P)
GetInstructionParent = _f("GetInstructionParent", P, P)
ConstRealGetDouble = _f("ConstRealGetDouble", C.c_double, P, C.POINTER(C.c_int))
GetFirstUse = _f("GetFirstUse", P, P)
GetNextUse = _f("GetNextUse", P, P)
GetUser = _f("GetUser", P, P)
IsNull = _f("IsNull", C.c_int, P)
GetDebugLocLine = _f("GetDebugLocLine", u, P)
GetDebugLocFilename = _f("GetDebugLocFilename", C.c_void_p, P, C.POINTER(u))

def cstr(pv):
    s = C.string_at(pv).decode("latin1")
    DisposeMessage(pv)
    return s

def vname(v):
    n = C.c_size_t()
    p = GetValueName2(v, C.byref(n))
    return C.string_at(p, n.value).decode("latin1") if p and n.value else ""

def parse(path):
    ctx = ContextCreate()
    buf = P(); msg = C.c_char_p()
    if CreateMemoryBufferWithContentsOfFile(path.encode(), C.byref(buf), C.byref(msg)):
        raise RuntimeError(msg.value)
    m = P()
    if ParseIRInContext(ctx, buf, C.byref(m), C.byref(msg)):
        raise RuntimeError(msg.value.decode())
    return m.value

OP = {1:'ret',2:'br',3:'switch',4:'indirectbr',5:'invoke',7:'unreachable',67:'callbr',66:'fneg',
 8:'add',9:'fadd',10:'sub',11:'fsub',12:'mul',13:'fmul',14:'udiv',15:'sdiv',16:'fdiv',17:'urem',18:'srem',19:'frem',
 20:'shl',21:'lshr',22:'ashr',23:'and',24:'or',25:'xor',26:'alloca',27:'load',28:'store',29:'getelementptr',
 30:'trunc',31:'zext',32:'sext',33:'fptoui',34:'fptosi',35:'uitofp',36:'sitofp',37:'fptrunc',38:'fpext',
 39:'ptrtoint',40:'inttoptr',41:'bitcast',60:'addrspacecast',42:'icmp',43:'fcmp',44:'phi',45:'call',46:'select',
 47:'userop1',48:'userop2',49:'va_arg',50:'extractelement',51:'insertelement',52:'shufflevector',53:'extractvalue',
 54:'insertvalue',68:'freeze',55:'fence',56:'cmpxchg',57:'atomicrmw',58:'resume',59:'landingpad'}
# value kinds
VK = ['Argument','BasicBlock','MemoryUse','MemoryDef','MemoryPhi','Function','GlobalAlias','GlobalIFunc','GlobalVariable',
 'BlockAddress','ConstantExpr','ConstantArray','ConstantStruct','ConstantVector','UndefValue','ConstantAggregateZero',
 'ConstantDataArray','ConstantDataVector','ConstantInt','ConstantFP','ConstantPointerNull','ConstantTokenNone',
 'MetadataAsValue','InlineAsm','Instruction','PoisonValue','ConstantTargetNone']
TK = ['void','half','float','double','x86_fp80','fp128','ppc_fp128','label','int','function','struct','array','pointer',
 'vector','metadata','x86_mmx','token','scalable','bfloat','x86_amx','target']
ICMP = {32:'eq',33:'ne',34:'ugt',35:'uge',36:'ult',37:'ule',38:'sgt',39:'sge',40:'slt',41:'sle'}
