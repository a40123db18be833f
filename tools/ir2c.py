#!/usr/bin/env python3
"""Mechanical LLVM-IR -> C translation, so that CBMC can be given the code clang compiles from /repo.

One IR instruction becomes one C statement; one IR function becomes one C function of the same
(mangled) name; IR struct types become C structs with the same layout (checked by _Static_assert).
Nothing is abstracted.  What the translation drops or fixes is listed in DESIGN.md ("Extraction").
"""
import sys, re, json, argparse, subprocess
import llvmc as L
from llvmc import vname, cstr, OP, VK, TK, ICMP

class Err(Exception):
    pass

SKIP_INTRIN = ("llvm.lifetime", "llvm.dbg", "llvm.experimental.noalias", "llvm.prefetch", "llvm.invariant",
               "llvm.donothing", "llvm.var.annotation", "llvm.sideeffect", "llvm.stackrestore", "llvm.pseudoprobe")
DROP_EXT = set("""printf puts putchar fprintf fflush sched_yield _mm_pause usleep nanosleep perror fputs fputc fwrite
_ZNSt8ios_base4InitC1Ev _ZNSt8ios_base4InitD1Ev __cxa_atexit _ZSt16__ostream_insertIcSt11char_traitsIcEERSt13basic_ostreamIT_T0_ES6_PKS3_l
_ZNSolsEi _ZNSolsEm _ZNSo3putEc _ZNSo5flushEv _ZNSo9_M_insertImEERSoT_ _ZNSo9_M_insertIlEERSoT_ _ZNSo9_M_insertIbEERSoT_ snprintf sprintf
_ZNSt8__detail15_List_node_base7_M_hookEPS0_ setvbuf madvise syslog""".split())
ABORT_EXT = {"abort": "abort() called", "exit": None, "__cxa_throw": "exception thrown", "_Exit": None, "_exit": None,
             "__cxa_rethrow": "exception thrown", "_ZSt9terminatev": "std::terminate", "__clang_call_terminate": "std::terminate",
             "__cxa_pure_virtual": "pure virtual call", "debug_die": "debug_die called", "debug_die_perror": "debug_die"}

class Tr:
    def __init__(self, mod, opts):
        self.m = mod
        self.dl = L.GetModuleDataLayout(mod)
        self.opts = opts
        self.tcache = {}
        self.structs = []       # emission order
        self.anon = {}
        self.bits = set()
        self.funcs = {}
        self.globals = {}
        f = L.GetFirstFunction(mod)
        while f:
            self.funcs[f] = vname(f); f = L.GetNextFunction(f)
        g = L.GetFirstGlobal(mod)
        while g:
            self.globals[g] = vname(g); g = L.GetNextGlobal(g)
        self.alias = {}
        a = L.GetFirstGlobalAlias(mod)
        while a:
            self.alias[a] = L.AliasGetAliasee(a); a = L.GetNextGlobalAlias(a)
        self.byname = {n: f for f, n in self.funcs.items()}
        self.out_funcs = {}
        self.queue = []
        self.gqueue = []
        self.gdone = {}
        self.externs = {}
        self.protos = {}
        self.memfns = {}
        self.report = {"functions": [], "externals": [], "dropped": [], "asm": []}
        self.byval_kind = L.GetEnumAttributeKindForName(b"byval", 5)
        self.has_env = "vp_env" in self.byname and not L.IsDeclaration(self.byname["vp_env"])
        self.has_env_st = "vp_env_store" in self.byname and not L.IsDeclaration(self.byname["vp_env_store"])
        self.has_wr = "vp_on_write" in self.byname and not L.IsDeclaration(self.byname["vp_on_write"])
        self.repl = opts.get("replace", [])   # list of (regex on demangled, stub)
        self.dem = demangle([n for n in self.funcs.values()])
        self.replmap = {}
        for rx, stub in self.repl:
            hit = 0
            for f, n in self.funcs.items():
                if n != stub and re.search(rx, self.dem[n]) and not n.startswith("vp_") and not n.startswith("harness_"):
                    self.replmap[n] = stub; hit += 1
            if not hit:
                raise Err("replace: no function matches " + rx)
            if stub not in self.byname:
                raise Err("replace: no stub " + stub)
        self.bytes_structs = set(opts.get("bytes_structs", []))

    # ---------- types
    def size(self, t):
        return L.ABISizeOfType(self.dl, t)

    def kind(self, t):
        return TK[L.GetTypeKind(t)]

    def ity(self, w):
        if w in (8, 16, 32, 64):
            return "u%d" % w
        if w == 1:
            return "u1"
        self.bits.add(w)
        return "u%d" % w

    def bitsof(self, t):
        k = self.kind(t)
        if k == 'int':
            return L.GetIntTypeWidth(t)
        if k == 'vector':
            return L.GetVectorSize(t) * self.bitsof(L.GetElementType(t))
        if k == 'pointer' or k == 'double':
            return 64
        if k == 'float':
            return 32
        raise Err("bitsof " + k)

    def ty(self, t):
        k = self.kind(t)
        if k == 'void':
            return "void"
        if k == 'int':
            return self.ity(L.GetIntTypeWidth(t))
        if k == 'vector':
            return self.ity(self.bitsof(t))
        if k == 'pointer':
            return "vptr"
        if k == 'double':
            return "double"
        if k == 'float':
            return "float"
        if k == 'x86_fp80':
            return "long double"
        if k == 'struct':
            return "struct " + self.struct(t)
        if k == 'array':
            # first-class array: wrapped
            key = ('arr', t)
            if key not in self.tcache:
                n = "A%d" % len(self.tcache)
                self.tcache[key] = n
                et = L.GetElementType(t)
                self.structs.append("struct %s { %s; };" % (n, self.decl(et, "a[%d]" % L.GetArrayLength2(t))))
            return "struct " + self.tcache[key]
        raise Err("type " + k)

    def decl(self, t, name):
        """declaration of a memory object of type t"""
        if self.kind(t) == 'array':
            return self.decl(L.GetElementType(t), "%s[%d]" % (name, L.GetArrayLength2(t)))
        return "%s %s" % (self.ty(t), name)

    def struct(self, t):
        if t in self.tcache:
            return self.tcache[t]
        nm = L.GetStructName(t)
        nm = nm.decode("latin1") if nm else "anon"
        n = "S%d_%s" % (len(self.tcache), re.sub(r'[^A-Za-z0-9_]', '_', nm)[-40:])
        self.tcache[t] = n
        if L.IsOpaqueStruct(t):
            self.structs.append("struct %s { u8 opaque; };" % n)
            return n
        fs = []
        for i in range(L.CountStructElementTypes(t)):
            ft = L.StructGetTypeAtIndex(t, i)
            fs.append(self.decl(ft, "f%d" % i) + ";")
        pk = "__attribute__((packed)) " if L.IsPackedStruct(t) else ""
        al = ""
        self.structs.append("struct %s%s { %s }%s;" % (pk, n, " ".join(fs), al))
        self.structs.append("_Static_assert(sizeof(struct %s)==%d,\"layout\");" % (n, self.size(t)))
        return n

    # ---------- constants
    def intval(self, v):
        t = L.TypeOf(v)
        w = L.GetIntTypeWidth(t)
        if w <= 64:
            return L.ConstIntGetZExtValue(v) & ((1 << w) - 1)
        s = cstr(L.PrintValueToString(v)).split()[-1]
        return int(s) & ((1 << w) - 1)

    def lit(self, val, w):
        if w == 1:
            return str(val & 1)
        if w in (8, 16):
            return "((u%d)%d)" % (w, val)
        if w == 32:
            return "%du" % val
        if w == 64:
            return "%dul" % val
        self.bits.add(w)
        if val < (1 << 64):
            return "((u%d)%dul)" % (w, val)
        parts = []
        i = 0
        while val >> (64 * i):
            c = (val >> (64 * i)) & ((1 << 64) - 1)
            if c:
                parts.append("(((u%d)%dul)<<%d)" % (w, c, 64 * i) if i else "((u%d)%dul)" % (w, c))
            i += 1
        return "(" + "|".join(parts) + ")"

    def scalar_bits(self, v):
        """integer value of a constant scalar (int/null/undef)"""
        k = VK[L.GetValueKind(v)]
        if k == 'ConstantInt':
            return self.intval(v)
        if k in ('ConstantPointerNull', 'ConstantAggregateZero'):
            return 0
        if k in ('UndefValue', 'PoisonValue'):
            return 0
        return None

    def nondet(self, t):
        ct = self.ty(t)
        nm = "nondet_" + re.sub(r'\W', '_', ct)
        self.protos[nm] = "%s %s(void);" % (ct, nm)
        return nm + "()"

    def const(self, v):
        k = VK[L.GetValueKind(v)]
        t = L.TypeOf(v)
        tk = self.kind(t)
        if k == 'ConstantInt':
            return self.lit(self.intval(v), L.GetIntTypeWidth(t))
        if k == 'ConstantPointerNull':
            return "((vptr)0)"
        if k in ('UndefValue', 'PoisonValue'):
            return self.nondet(t)
        if k == 'Function':
            return "((vptr)" + self.fref(v) + ")"
        if k == 'GlobalVariable':
            return "((vptr)&" + self.gref(v) + ")"
        if k == 'GlobalAlias':
            return self.const(self.alias[v])
        if k == 'ConstantFP':
            lo = L.C.c_int()
            d = L.ConstRealGetDouble(v, L.C.byref(lo))
            if d != d or d in (float('inf'), float('-inf')):
                return "(%s)(%s)" % (self.ty(t), "0.0/0.0" if d != d else ("1.0/0.0" if d > 0 else "-1.0/0.0"))
            return "((%s)%s)" % (self.ty(t), d.hex() if d == d else "0")
        if k == 'ConstantExpr':
            return self.instr_expr(v, L.GetConstOpcode(v))
        if tk == 'vector':
            n = L.GetVectorSize(t); w = self.bitsof(L.GetElementType(t))
            val = 0; exprs = []
            for i in range(n):
                e = L.GetAggregateElement(v, i) if k != 'ConstantDataVector' else L.GetElementAsConstant(v, i)
                s = self.scalar_bits(e)
                if s is None:
                    raise Err("vector const elem " + cstr(L.PrintValueToString(v)))
                val |= s << (i * w)
            return self.lit(val, n * w)
        if k in ('ConstantAggregateZero', 'ConstantStruct', 'ConstantArray', 'ConstantDataArray'):
            return "((%s)%s)" % (self.ty(t), self.init(v, wrap=True))
        raise Err("const " + k + " " + cstr(L.PrintValueToString(v))[:200])

    def init(self, v, wrap=False):
        """initialiser for memory of type typeof(v)"""
        t = L.TypeOf(v)
        tk = self.kind(t)
        k = VK[L.GetValueKind(v)]
        if tk in ('struct', 'array'):
            if k in ('ConstantAggregateZero',):
                return "{0}"
            if k in ('UndefValue', 'PoisonValue'):
                return "{0}"
            n = L.CountStructElementTypes(t) if tk == 'struct' else L.GetArrayLength2(t)
            els = []
            for i in range(n):
                e = L.GetElementAsConstant(v, i) if k == 'ConstantDataArray' else L.GetAggregateElement(v, i)
                els.append(self.init(e))
            s = "{" + ",".join(els) + "}" if els else "{}"
            if wrap and tk == 'array':
                s = "{" + s + "}"
            return s
        if k in ('UndefValue', 'PoisonValue'):
            return "0"
        return self.const(v)

    def cname(self, n):
        s = re.sub(r'[^A-Za-z0-9_]', '_', n)
        if s in ("main", "malloc", "free", "memcpy", "memmove", "memset", "calloc", "realloc", "posix_memalign"):
            s = "x_" + s
        if n != s:
            s = s + "_%x" % (hash_s(n) & 0xffff)
        return s

    def gref(self, g):
        if g not in self.gdone:
            self.gdone[g] = "g_" + self.cname(self.globals[g])
            self.gqueue.append(g)
        return self.gdone[g]

    def fref(self, f):
        while VK[L.GetValueKind(f)] == 'GlobalAlias':
            f = self.alias[f]
        n = self.funcs[f]
        if n in self.replmap:
            f = self.byname[self.replmap[n]]
            n = self.replmap[n]
        if L.IsDeclaration(f):
            return self.extern(f, n)
        if f not in self.out_funcs:
            self.out_funcs[f] = None
            self.queue.append(f)
        return self.cname(n)

    def extern(self, f, n):
        if n not in self.externs:
            self.externs[n] = f
        return self.cname(n)

    # ---------- lvalues
    def gep_chain(self, v, op):
        """C lvalue designated by a GEP (const expr or instruction): returns (prefix, index or None, type).
        address = &prefix[index] if index is not None else &prefix"""
        base = L.GetOperand(v, 0)
        st = L.GetGEPSourceElementType(v)
        nops = L.GetNumOperands(v)
        i0 = L.GetOperand(v, 1)
        i0v = self.scalar_bits(i0)
        t = st
        lv, ix = None, None
        # can the base be continued as an lvalue?
        if i0v == 0:
            bl = self.lvalue_of(base, st)
            lv = bl
        if lv is None:
            b = self.base_array(base, st) if i0v != 0 else None
            if b:
                pre, ix = b[0], "%s" % self.sx(i0) if b[1] == "0" else "(%s)+(%s)" % (b[1], self.sx(i0))
                lv = "%s[%s]" % (pre, ix)
                if nops == 2:
                    return pre, ix, st
            if lv is None:
                ct = self.ctype_ptr(st)
                pre = "((%s)%s)" % (ct, self.val(base))
                ix = self.sx(i0) if i0v != 0 else "0"
                if nops == 2:
                    return pre, ix, st
                lv = "(*%s)" % pre if ix == "0" else "%s[%s]" % (pre, ix)
        elif nops == 2:
            return lv, None, st
        ix = None
        for k in range(2, nops):
            iv = L.GetOperand(v, k)
            if ix is not None:
                lv = "%s[%s]" % (lv, ix); ix = None
            if self.kind(t) == 'struct':
                fi = self.intval(iv)
                lv = "%s.f%d" % (lv, fi)
                t = L.StructGetTypeAtIndex(t, fi)
            elif self.kind(t) == 'array':
                n = L.GetArrayLength2(t)
                t = L.GetElementType(t)
                if n <= 1:
                    lv = "((%s)(vptr)&%s)" % (self.ctype_ptr(t), lv)
                ix = self.sx(iv)
            else:
                raise Err("gep into " + self.kind(t))
        return lv, ix, t

    def base_array(self, p, st):
        """(array lvalue, index) such that p points at that element and elements have type st"""
        k = VK[L.GetValueKind(p)]
        if self.is_gep(p):
            pre, ix, gt = self.gep_lv(p)
            if ix is not None and self.same(gt, st):
                return pre, ix
            lv = pre if ix is None else "%s[%s]" % (pre, ix)
        elif k == 'GlobalVariable':
            lv, gt = self.gref(p), L.GlobalGetValueType(p)
        elif k == 'Instruction' and OP[L.GetInstructionOpcode(p)] == 'alloca' and p in self.loc and self.scalar_bits(L.GetOperand(p, 0)) == 1:
            lv, gt = self.loc[p] + "_m", L.GetAllocatedType(p)
        else:
            return None
        for _ in range(8):
            if self.kind(gt) == 'array':
                if L.GetArrayLength2(gt) > 1 and self.same(L.GetElementType(gt), st):
                    return lv, "0"
                if L.GetArrayLength2(gt) < 1:
                    return None
                lv += "[0]"; gt = L.GetElementType(gt)
            elif self.kind(gt) == 'struct' and not L.IsOpaqueStruct(gt) and L.CountStructElementTypes(gt):
                lv += ".f0"; gt = L.StructGetTypeAtIndex(gt, 0)
            else:
                return None
        return None

    def array_root(self, p, st):
        """(array lvalue, LLVM index terms, const, length) for pointer p into an array of st; None if unknown"""
        terms, c = [], 0
        cur = p
        for _ in range(6):
            if self.is_gep(cur):
                n = L.GetNumOperands(cur)
                gst = L.GetGEPSourceElementType(cur)
                last = L.GetOperand(cur, n - 1)
                lastc = self.scalar_bits(last)
                if n == 2 and self.same(gst, st):
                    if lastc is None: terms.append(last)
                    else: c += lastc if lastc < 1 << 63 else lastc - (1 << 64)
                    cur = L.GetOperand(cur, 0)
                    continue
                # struct path ending in the array or in an element of it
                t = gst
                for k in range(2, n):
                    pt = t
                    t = L.StructGetTypeAtIndex(t, self.intval(L.GetOperand(cur, k))) if self.kind(t) == 'struct' else L.GetElementType(t)
                pre, ix, gt = self.gep_chain(cur, None)
                if self.same(t, st) and n > 2 and self.kind(pt) == 'array' and L.GetArrayLength2(pt) > 1:
                    if lastc is None: terms.append(last)
                    else: c += lastc if lastc < 1 << 63 else lastc - (1 << 64)
                    return pre, terms, c, L.GetArrayLength2(pt)
                if self.kind(t) == 'array' and self.same(L.GetElementType(t), st) and L.GetArrayLength2(t) > 1:
                    return (pre if ix is None else "%s[%s]" % (pre, ix)), terms, c, L.GetArrayLength2(t)
                return None
            k = VK[L.GetValueKind(cur)]
            if k == 'GlobalVariable' or (k == 'Instruction' and OP[L.GetInstructionOpcode(cur)] == 'alloca'):
                gt = L.GlobalGetValueType(cur) if k == 'GlobalVariable' else L.GetAllocatedType(cur)
                if self.kind(gt) == 'array' and self.same(L.GetElementType(gt), st) and L.GetArrayLength2(gt) > 1:
                    b = self.base_array(cur, st)
                    return (b[0], terms, c, L.GetArrayLength2(gt)) if b else None
            return None
        return None

    def lin(self, v, depth=0):
        """value -> ({leaf: coeff}, const) over 64-bit wrap arithmetic (zext/sext of add nsw/nuw kept opaque unless const)"""
        s = self.scalar_bits(v)
        if s is not None:
            w = L.GetIntTypeWidth(L.TypeOf(v))
            return {}, (s - (1 << w) if s >> (w - 1) else s)
        if VK[L.GetValueKind(v)] == 'Instruction' and depth < 8:
            op = OP[L.GetInstructionOpcode(v)]
            o = lambda k: L.GetOperand(v, k)
            if op in ('add', 'sub'):
                a, ca = self.lin(o(0), depth + 1); b, cb = self.lin(o(1), depth + 1)
                sg = 1 if op == 'add' else -1
                r = dict(a)
                for k, x in b.items():
                    r[k] = r.get(k, 0) + sg * x
                return {k: x for k, x in r.items() if x}, ca + sg * cb
            if op in ('zext', 'sext'):
                a, ca = self.lin(o(0), depth + 1)
                if len(a) == 1 and ca != 0:
                    (k, x), = a.items()
                    return {(op, k): x}, ca   # heuristic only: the emitted code asserts the difference
                if len(a) == 1:
                    (k, x), = a.items()
                    return {(op, k): x}, 0
        return {v: 1}, 0

    def const_shift(self, d, s, st):
        """if d and s point into the same constant-length array of st with a constant index distance"""
        a, b = self.array_root(d, st), self.array_root(s, st)
        if not a or not b or a[0] != b[0]:
            return None
        tot, c = {}, a[2] - b[2]
        for sg, terms in ((1, a[1]), (-1, b[1])):
            for v in terms:
                r, k = self.lin(v)
                c += sg * k
                for key, x in r.items():
                    tot[key] = tot.get(key, 0) + sg * x
        if any(tot.values()) or not (-8 <= c <= 8) or c == 0:
            return None
        return a[0], a[3], c

    def same(self, a, b):
        return a == b

    def is_gep(self, v):
        k = VK[L.GetValueKind(v)]
        if k == 'Instruction':
            return OP[L.GetInstructionOpcode(v)] == 'getelementptr'
        if k == 'ConstantExpr':
            return OP[L.GetConstOpcode(v)] == 'getelementptr'
        return False

    def gep_lv(self, v):
        if self.is_gep(v):
            t = L.TypeOf(v)
            if self.kind(t) != 'pointer':
                return None
            return self.gep_chain(v, None)
        return None

    def ctype_ptr(self, t):
        """C type 'pointer to t'"""
        if self.kind(t) == 'array':
            dims = ""
            while self.kind(t) == 'array':
                dims += "[%d]" % L.GetArrayLength2(t)
                t = L.GetElementType(t)
            return "%s(*)%s" % (self.ty(t), dims)
        return self.ty(t) + "*"

    def first_at(self, lv, have, want, wsz):
        """descend lv (type have) at offset 0 until a subobject of type want is found"""
        for _ in range(12):
            if self.same(have, want):
                return lv
            if self.kind(have) == 'int' and self.kind(want) == 'int' and L.GetIntTypeWidth(have) == L.GetIntTypeWidth(want):
                return lv
            if self.kind(have) == 'pointer' and self.kind(want) == 'pointer':
                return lv
            k = self.kind(have)
            if k == 'struct' and not L.IsOpaqueStruct(have) and L.CountStructElementTypes(have) > 0:
                f0 = L.StructGetTypeAtIndex(have, 0)
                if self.size(f0) < wsz:
                    return None
                lv += ".f0"; have = f0
            elif k == 'array' and L.GetArrayLength2(have) > 1:
                lv += "[0]"; have = L.GetElementType(have)
                if self.size(have) < wsz:
                    return None
            else:
                return None
        return None

    def lvalue_of(self, p, t):
        """an lvalue of type t at pointer value p that keeps struct typing, or None"""
        k = VK[L.GetValueKind(p)]
        if self.is_gep(p):
            r = self.gep_lv(p)
            if not r:
                return None
            pre, ix, gt = r
            lv = pre if ix is None else "%s[%s]" % (pre, ix)
            if self.size(gt) == 0:
                return None
            return self.first_at(lv, gt, t, self.size(t))
        if k == 'GlobalVariable':
            gt = L.GlobalGetValueType(p)
            return self.first_at(self.gref(p), gt, t, self.size(t))
        if k == 'Instruction' and OP[L.GetInstructionOpcode(p)] == 'alloca' and p in self.loc:
            return self.first_at(self.loc[p] + "_m", L.GetAllocatedType(p), t, self.size(t))
        return None

    def mem(self, p, t):
        """lvalue for an access of type t through p"""
        lv = self.lvalue_of(p, t)
        if lv is not None:
            return lv
        return "(*(%s)%s)" % (self.ctype_ptr(t), self.val(p))

    def elem(self, p, t, k):
        """lvalue of the k-th t at p"""
        if self.is_gep(p):
            pre, ix, gt = self.gep_lv(p)
            if self.same(gt, t) and ix is not None:
                return "%s[(%s)+(s64)(%s)]" % (pre, ix, k)
            if self.kind(gt) == 'array' and self.same(L.GetElementType(gt), t) and L.GetArrayLength2(gt) > 1:
                return "%s[%s]" % (pre if ix is None else "%s[%s]" % (pre, ix), k)
        return "((%s)%s)[%s]" % (self.ctype_ptr(t), self.val(p), k)

    def sx(self, v):
        s = self.scalar_bits(v)
        w = L.GetIntTypeWidth(L.TypeOf(v))
        if s is not None:
            if s >> (w - 1):
                s -= 1 << w
            return "%d" % s if abs(s) < 2**31 else "%dl" % s
        return self.signed(self.val(v), w)

    def signed(self, e, w):
        if w in (8, 16, 32, 64):
            return "((s%d)%s)" % (w, e)
        if w == 1:
            return "(-(s32)%s)" % e
        self.bits.add(w)
        return "((s%d)%s)" % (w, e)

    # ---------- values
    def val(self, v):
        k = VK[L.GetValueKind(v)]
        if k in ('Argument', 'Instruction'):
            return self.loc[v]
        return self.const(v)

    def w(self, v):
        return self.bitsof(L.TypeOf(v))

    def vbin(self, op, v):
        t = L.TypeOf(v)
        a, b = L.GetOperand(v, 0), L.GetOperand(v, 1)
        if self.kind(t) == 'vector':
            n = L.GetVectorSize(t); et = L.GetElementType(t); w = self.bitsof(et)
            if op in ('and', 'or', 'xor'):
                return "(%s)(%s %s %s)" % (self.ty(t), self.val(a), {'and': '&', 'or': '|', 'xor': '^'}[op], self.val(b))
            A, B = self.val(a), self.val(b)
            return self.pack([self.sbin(op, self.ex(A, i, w), self.ex(B, i, w), w) for i in range(n)], w)
        return self.sbin(op, self.val(a), self.val(b), self.bitsof(t))

    def ex(self, A, i, w):
        ct = self.ity(w)
        if w == 1:
            return "((u1)((%s >> %d) & 1))" % (A, i)
        return "((%s)(%s >> %d))" % (ct, A, i * w)

    def pack(self, els, w):
        W = w * len(els)
        ct = self.ity(W)
        return "(%s)(%s)" % (ct, "|".join("((%s)(%s) << %d)" % (ct, e, i * w) for i, e in enumerate(els)))

    def sbin(self, op, a, b, w):
        ct = self.ity(w)
        if op in ('add', 'sub', 'mul', 'and', 'or', 'xor', 'udiv', 'urem'):
            o = {'add': '+', 'sub': '-', 'mul': '*', 'and': '&', 'or': '|', 'xor': '^', 'udiv': '/', 'urem': '%'}[op]
            if w == 1:
                return "((u1)((%s %s %s) & 1))" % (a, o, b)
            return "(%s)(%s %s %s)" % (ct, a, o, b)
        if op == 'shl':
            if w < 32 and w != 1:
                return "(%s)((u32)%s << %s)" % (ct, a, b) if w in (8, 16) else "(%s)(%s << %s)" % (ct, a, b)
            return "(%s)(%s << %s)" % (ct, a, b)
        if op == 'lshr':
            return "(%s)(%s >> %s)" % (ct, a, b)
        if op == 'ashr':
            return "(%s)(%s >> %s)" % (ct, self.signed(a, w), b)
        if op == 'sdiv':
            return "(%s)(%s / %s)" % (ct, self.signed(a, w), self.signed(b, w))
        if op == 'srem':
            return "(%s)(%s %% %s)" % (ct, self.signed(a, w), self.signed(b, w))
        raise Err(op)

    def icmp(self, v, pred):
        a, b = L.GetOperand(v, 0), L.GetOperand(v, 1)
        t = L.TypeOf(a)
        o = {'eq': '==', 'ne': '!=', 'ugt': '>', 'uge': '>=', 'ult': '<', 'ule': '<=', 'sgt': '>', 'sge': '>=', 'slt': '<', 'sle': '<='}[pred]
        if self.kind(t) == 'vector':
            n = L.GetVectorSize(t); w = self.bitsof(L.GetElementType(t))
            A, B = self.val(a), self.val(b)
            els = []
            for i in range(n):
                x, y = self.ex(A, i, w), self.ex(B, i, w)
                if pred[0] == 's':
                    x, y = self.signed(x, w), self.signed(y, w)
                els.append("(%s %s %s)" % (x, o, y))
            return self.pack(els, 1)
        x, y = self.val(a), self.val(b)
        if self.kind(t) == 'pointer' and pred not in ('eq', 'ne'):
            return "(VP_P2I(%s) %s VP_P2I(%s))" % (x, o, y)
        if pred[0] == 's':
            w = self.bitsof(t)
            x, y = self.signed(x, w), self.signed(y, w)
        return "(%s %s %s)" % (x, o, y)

    def instr_expr(self, v, opn):
        """expression of a side-effect-free instruction or constant expression"""
        op = OP[opn]
        t = L.TypeOf(v)
        if op in ('add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor'):
            return self.vbin(op, v)
        if op == 'getelementptr':
            if self.kind(t) == 'vector':
                raise Err("vector gep")
            pre, ix, gt = self.gep_chain(v, op)
            if ix is None:
                return "((vptr)&%s)" % pre
            return "((vptr)&%s[%s])" % (pre, ix)
        if op == 'icmp':
            return self.icmp(v, ICMP[L.GetICmpPredicate(v)])
        if op == 'select':
            c, a, b = (L.GetOperand(v, i) for i in range(3))
            if self.kind(L.TypeOf(c)) == 'vector':
                n = L.GetVectorSize(t); w = self.bitsof(L.GetElementType(t))
                Cc, A, B = self.val(c), self.val(a), self.val(b)
                return self.pack(["(%s ? %s : %s)" % (self.ex(Cc, i, 1), self.ex(A, i, w), self.ex(B, i, w)) for i in range(n)], w)
            return "(%s ? %s : %s)" % (self.val(c), self.val(a), self.val(b))
        if op in ('trunc', 'zext', 'sext', 'bitcast', 'ptrtoint', 'inttoptr', 'fptoui', 'fptosi', 'uitofp', 'sitofp', 'fptrunc', 'fpext', 'freeze', 'addrspacecast'):
            a = L.GetOperand(v, 0)
            at = L.TypeOf(a)
            if op == 'freeze':
                return self.val(a)
            if op == 'ptrtoint':
                return "(%s)VP_P2I(%s)" % (self.ty(t), self.val(a))
            if op == 'inttoptr':
                return "VP_I2P(%s)" % self.val(a)
            if op == 'bitcast':
                if self.kind(at) in ('double', 'float') or self.kind(t) in ('double', 'float'):
                    return "VP_BITCAST_%s_%s(%s)" % (self.ty(at), self.ty(t), self.val(a))
                return "((%s)%s)" % (self.ty(t), self.val(a))
            if self.kind(t) == 'vector':
                n = L.GetVectorSize(t); w = self.bitsof(L.GetElementType(t)); aw = self.bitsof(L.GetElementType(at))
                A = self.val(a)
                els = []
                for i in range(n):
                    e = self.ex(A, i, aw)
                    if op == 'sext':
                        e = "(%s)%s" % (self.ity(w), self.signed(e, aw) if aw > 1 else "(-(s64)%s)" % e)
                    elif op == 'trunc':
                        e = "(%s)%s" % (self.ity(w), e) if w > 1 else "(u1)(%s & 1)" % e
                    els.append(e)
                return self.pack(els, w)
            if op == 'trunc':
                if L.GetIntTypeWidth(t) == 1:
                    return "((u1)(%s & 1))" % self.val(a)
                return "((%s)%s)" % (self.ty(t), self.val(a))
            if op == 'zext':
                return "((%s)%s)" % (self.ty(t), self.val(a))
            if op == 'sext':
                aw = L.GetIntTypeWidth(at)
                if aw == 1:
                    return "((%s)(-(s64)%s))" % (self.ty(t), self.val(a))
                return "((%s)%s)" % (self.ty(t), self.signed("(%s)" % self.val(a), aw))
            if op == 'sitofp':
                return "((%s)%s)" % (self.ty(t), self.signed(self.val(a), self.bitsof(at)))
            if op == 'fptosi':
                return "((%s)(s64)%s)" % (self.ty(t), self.val(a))
            return "((%s)%s)" % (self.ty(t), self.val(a))
        if op == 'extractelement':
            a, i = L.GetOperand(v, 0), L.GetOperand(v, 1)
            w = self.bitsof(t)
            iv = self.scalar_bits(i)
            if iv is not None:
                e = self.ex(self.val(a), iv, w)
            else:
                e = "((%s)(%s >> (%s*%d)))" % (self.ity(w), self.val(a), self.val(i), w)
                if w == 1:
                    e = "((u1)((%s >> %s)&1))" % (self.val(a), self.val(i))
            if self.kind(t) == 'pointer':
                e = "((vptr)%s)" % e
            if self.kind(t) in ('double', 'float'):
                e = "VP_BITCAST_u%d_%s(%s)" % (w, self.ty(t), e)
            return e
        if op == 'insertelement':
            a, e, i = (L.GetOperand(v, k) for k in range(3))
            w = self.bitsof(L.GetElementType(t)); n = L.GetVectorSize(t); W = w * n
            iv = self.scalar_bits(i)
            A = self.const(a) if VK[L.GetValueKind(a)] not in ('Argument', 'Instruction') else self.loc[a]
            if VK[L.GetValueKind(a)] in ('PoisonValue', 'UndefValue'):
                A = "0"
            ct = self.ity(W)
            E = self.val(e)
            if self.kind(L.TypeOf(e)) == 'pointer':
                E = "(u64)" + E
            if self.kind(L.TypeOf(e)) in ('double', 'float'):
                E = "VP_BITCAST_%s_u%d(%s)" % (self.ty(L.TypeOf(e)), w, E)
            if iv is None:
                sh = "(%s*%d)" % (self.val(i), w)
            else:
                sh = str(iv * w)
            mask = self.lit((1 << w) - 1, W)
            return "((%s)%s & ~(%s)(%s << %s)) | ((%s)%s << %s)" % (ct, A, ct, mask, sh, ct, E, sh)
        if op == 'shufflevector':
            a, b = L.GetOperand(v, 0), L.GetOperand(v, 1)
            w = self.bitsof(L.GetElementType(t)); n = L.GetVectorSize(t)
            na = L.GetVectorSize(L.TypeOf(a))
            els = []
            for k in range(n):
                mi = L.GetMaskValue(v, k)
                if mi < 0:
                    els.append("0")
                elif mi < na:
                    els.append(self.ex(self.val(a), mi, w))
                else:
                    els.append(self.ex(self.val(b), mi - na, w))
            return self.pack(els, w)
        if op == 'extractvalue':
            a = L.GetOperand(v, 0)
            n = L.GetNumIndices(v); ix = L.GetIndices(v)
            return self.val(a) + self.aggpath(L.TypeOf(a), [ix[i] for i in range(n)])
        if op in ('fadd', 'fsub', 'fmul', 'fdiv'):
            return "(%s %s %s)" % (self.val(L.GetOperand(v, 0)), {'fadd': '+', 'fsub': '-', 'fmul': '*', 'fdiv': '/'}[op], self.val(L.GetOperand(v, 1)))
        if op == 'fneg':
            return "(-%s)" % self.val(L.GetOperand(v, 0))
        if op == 'fcmp':
            p = L.GetFCmpPredicate(v)
            a, b = self.val(L.GetOperand(v, 0)), self.val(L.GetOperand(v, 1))
            names = {1: '==', 2: '>', 3: '>=', 4: '<', 5: '<=', 6: 'one'}
            if p in (1, 2, 3, 4, 5):
                return "(%s %s %s)" % (a, names[p], b)
            inv = {14: '==', 10: '<=', 11: '<', 12: '>=', 13: '>'}
            if p in inv:
                return "(!(%s %s %s))" % (a, inv[p], b)
            if p == 7:
                return "(%s==%s && %s==%s)" % (a, a, b, b)
            if p == 8:
                return "(!(%s==%s && %s==%s))" % (a, a, b, b)
            raise Err("fcmp %d" % p)
        raise Err("expr op " + op)

    def aggpath(self, t, ixs):
        s = ""
        for i in ixs:
            if self.kind(t) == 'struct':
                s += ".f%d" % i
                t = L.StructGetTypeAtIndex(t, i)
            else:
                # first-class array member is declared as real array inside a struct; top-level is wrapped
                s += (".a[%d]" if s == "" else "[%d]") % i
                t = L.GetElementType(t)
        return s

    # ---------- functions
    def sig(self, f, name):
        ft = L.GlobalGetValueType(f)
        rt = self.ty(L.GetReturnType(ft))
        ps = []
        for i in range(L.CountParams(f)):
            p = L.GetParam(f, i)
            ps.append("%s %s" % (self.ty(L.TypeOf(p)), "a%d" % i))
        return "%s %s(%s)" % (rt, name, ", ".join(ps) or "void")

    def function(self, f):
        n = self.funcs[f]
        self.loc = {}
        body = []
        decls = []
        for i in range(L.CountParams(f)):
            self.loc[L.GetParam(f, i)] = "a%d" % i
        bbs = []
        b = L.GetFirstBasicBlock(f)
        while b:
            bbs.append(b); b = L.GetNextBasicBlock(b)
        lab = {b: "B%d" % i for i, b in enumerate(bbs)}
        cnt = 0
        insts = {}
        for b in bbs:
            l = []
            i = L.GetFirstInstruction(b)
            while i:
                l.append(i)
                t = L.TypeOf(i)
                if self.kind(t) not in ('void', 'token', 'label', 'metadata'):
                    self.loc[i] = "v%d" % cnt
                    cnt += 1
                i = L.GetNextInstruction(i)
            insts[b] = l
        self.lab = lab
        # reachable blocks via normal edges only
        reach, st = set(), [bbs[0]]
        while st:
            b = st.pop()
            if b in reach:
                continue
            reach.add(b)
            term = insts[b][-1]
            op = OP[L.GetInstructionOpcode(term)]
            if op == 'invoke':
                st.append(L.GetNormalDest(term))
            elif op in ('br', 'switch'):
                for k in range(L.GetNumSuccessors(term)):
                    st.append(L.GetSuccessor(term, k))
        for b in bbs:
            if b not in reach:
                continue
            body.append("%s: ;" % lab[b])
            for i in insts[b]:
                opn = L.GetInstructionOpcode(i)
                op = OP.get(opn, str(opn))
                t = L.TypeOf(i)
                if i in self.loc and op not in ('alloca',):
                    decls.append("%s %s;" % (self.ty(t), self.loc[i]))
                if op == 'phi':
                    continue
                if op == 'alloca':
                    at = L.GetAllocatedType(i)
                    cntv = self.scalar_bits(L.GetOperand(i, 0))
                    nm = self.loc[i]
                    if cntv is None:
                        decls.append("vptr %s;" % nm)
                        body.append("  %s = vp_alloca((u64)%s*%dul);" % (nm, self.val(L.GetOperand(i, 0)), self.size(at)))
                        self.loc[i] = nm
                        continue
                    if cntv != 1:
                        decls.append("%s; vptr %s = (vptr)&%s_m;" % (self.decl(at, nm + "_m[%d]" % cntv), nm, nm))
                    else:
                        decls.append("%s; vptr %s = (vptr)&%s_m;" % (self.decl(at, nm + "_m"), nm, nm))
                    continue
                self.inst(i, op, b, body, insts)
        name = self.cname(n)
        s = self.sig(f, name) + " {\n"
        # byval copies
        s += "".join("  %s\n" % d for d in decls)
        s += "\n".join(body) + "\n}\n"
        self.out_funcs[f] = s
        self.report["functions"].append({"name": n, "demangled": self.dem.get(n, n), "instructions": sum(len(insts[b]) for b in bbs if b in reach)})

    def edge(self, frm, to, body, ind="  "):
        """phi moves for the edge frm->to, then goto"""
        moves = []
        i = L.GetFirstInstruction(to)
        while i and OP.get(L.GetInstructionOpcode(i)) == 'phi':
            for k in range(L.CountIncoming(i)):
                if L.GetIncomingBlock(i, k) == frm:
                    moves.append((i, L.GetIncomingValue(i, k)))
                    break
            i = L.GetNextInstruction(i)
        dsts = {m[0] for m in moves}
        moves = [(d, s) for d, s in moves if d != s]
        conflict = any(s in dsts for d, s in moves)
        out = []
        if conflict:
            for d, s in moves:
                out.append("%s t_%s = %s;" % (self.ty(L.TypeOf(d)), self.loc[d], self.val(s)))
            for d, s in moves:
                out.append("%s = t_%s;" % (self.loc[d], self.loc[d]))
        else:
            for d, s in moves:
                out.append("%s = %s;" % (self.loc[d], self.val(s)))
        out.append("goto %s;" % self.lab[to])
        return "{ " + " ".join(out) + " }"

    def store_stmt(self, p, v):
        t = L.TypeOf(v)
        k = self.kind(t)
        if k == 'int' and L.GetIntTypeWidth(t) not in (8, 16, 32, 64, 128):
            w = L.GetIntTypeWidth(t)
            if w == 1:
                return "*(u8*)%s = %s;" % (self.val(p), self.val(v))
            nb = (w + 7) // 8
            return " ".join("((u8*)%s)[%d] = (u8)(%s >> %d);" % (self.val(p), b, self.val(v), 8 * b) for b in range(nb))
        if k == 'vector':
            W = self.bitsof(t)
            if W in (8, 16, 32, 64):
                return "*(u%d*)%s = %s;" % (W, self.val(p), self.val(v))
            ew = self.bitsof(L.GetElementType(t))
            n = L.GetVectorSize(t)
            return " ".join("((u%d*)%s)[%d] = %s;" % (ew, self.val(p), b, self.ex(self.val(v), b, ew)) for b in range(n))
        if k == 'array':
            et = L.GetElementType(t)
            return "*(%s*)%s = %s;" % (self.ty(t), self.val(p), self.val(v))
        return "%s = %s;" % (self.mem(p, t), self.val(v))

    def load_expr(self, p, t):
        k = self.kind(t)
        if k == 'int' and L.GetIntTypeWidth(t) not in (8, 16, 32, 64, 128):
            w = L.GetIntTypeWidth(t)
            if w == 1:
                return "(u1)(*(u8*)%s & 1)" % self.val(p)
            nb = (w + 7) // 8
            ct = self.ity(w)
            return "(%s)(%s)" % (ct, "|".join("((%s)((u8*)%s)[%d] << %d)" % (ct, self.val(p), b, 8 * b) for b in range(nb)))
        if k == 'vector':
            W = self.bitsof(t)
            if W in (8, 16, 32, 64):
                return "*(u%d*)%s" % (W, self.val(p))
            et = L.GetElementType(t)
            ew = self.bitsof(et); n = L.GetVectorSize(t)
            if self.kind(et) == 'int':
                return self.pack([self.elem(p, et, b) for b in range(n)], ew)
            return self.pack(["((u%d*)%s)[%d]" % (ew, self.val(p), b) for b in range(n)], ew)
        if k == 'array':
            return "*(%s*)%s" % (self.ty(t), self.val(p))
        return self.mem(p, t)

    def inst(self, i, op, b, body, insts):
        o = lambda k: L.GetOperand(i, k)
        t = L.TypeOf(i)
        if op == 'load':
            if self.has_env and (L.GetOrdering(i) != 0 or L.GetVolatile(i)):
                body.append("  vp_env(%s);" % self.val(o(0))); self.fref(self.byname["vp_env"])
            body.append("  %s = %s;" % (self.loc[i], self.load_expr(o(0), t)))
        elif op == 'store':
            at = L.GetOrdering(i) != 0 or L.GetVolatile(i)
            if at and self.has_env_st:
                body.append("  vp_env_store(%s);" % self.val(o(1))); self.fref(self.byname["vp_env_store"])
            if at and self.has_wr:
                self.fref(self.byname["vp_on_write"])
                w = self.bitsof(L.TypeOf(o(0)))
                body.append("  { u64 vp_o = (u64)%s; %s vp_on_write(%s, %d, vp_o, (u64)%s); }" % (self.load_expr(o(1), L.TypeOf(o(0))), self.store_stmt(o(1), o(0)), self.val(o(1)), w // 8, self.val(o(0))))
            else:
                body.append("  " + self.store_stmt(o(1), o(0)))
        elif op == 'br':
            if L.GetNumSuccessors(i) == 1:
                body.append("  " + self.edge(b, L.GetSuccessor(i, 0), body))
            else:
                body.append("  if (%s) %s else %s" % (self.val(L.GetCondition(i)), self.edge(b, L.GetSuccessor(i, 0), body), self.edge(b, L.GetSuccessor(i, 1), body)))
        elif op == 'switch':
            n = L.GetNumSuccessors(i)
            c = self.val(o(0))
            w = self.bitsof(L.TypeOf(o(0)))
            s = ""
            for k in range(1, n):
                cv = self.lit(self.intval(L.GetOperand(i, 2 * k)), w)
                s += "  if (%s == %s) %s else\n" % (c, cv, self.edge(b, L.GetSuccessor(i, k), body))
            s += "  " + self.edge(b, L.GetSuccessor(i, 0), body)
            body.append(s)
        elif op == 'ret':
            if L.GetNumOperands(i):
                body.append("  return %s;" % self.val(o(0)))
            else:
                body.append("  return;")
        elif op == 'unreachable':
            body.append("  VP_UNREACHABLE();")
        elif op == 'fence':
            body.append("  /* fence */;")
        elif op == 'cmpxchg':
            p, e, nv = o(0), o(1), o(2)
            r = self.loc[i]
            et = L.TypeOf(e)
            ct = self.ty(et)
            if self.has_env:
                body.append("  vp_env(%s);" % self.val(p)); self.fref(self.byname["vp_env"])
            weak = "&& !vp_spurious()" if L.GetWeak(i) else ""
            wr = ""
            if self.has_wr:
                self.fref(self.byname["vp_on_write"])
                wr = " vp_on_write(%s, %d, (u64)%s.f0, (u64)%s);" % (self.val(p), self.bitsof(et) // 8, r, self.val(nv))
            m = self.mem(p, et) if self.bitsof(et) in (8, 16, 32, 64) else "(*(%s*)%s)" % (ct, self.val(p))
            body.append("  %s.f0 = %s; %s.f1 = (%s.f0 == %s) %s; if (%s.f1) { %s = %s;%s }" % (r, m, r, r, self.val(e), weak, r, m, self.val(nv), wr))
        elif op == 'atomicrmw':
            p, x = o(0), o(1)
            r = self.loc[i]
            bop = L.GetAtomicRMWBinOp(i)
            names = ['xchg', 'add', 'sub', 'and', 'nand', 'or', 'xor', 'max', 'min', 'umax', 'umin']
            nm = names[bop]
            ct = self.ty(t)
            X = self.val(x)
            ex = {'xchg': X, 'add': "%s + %s" % (r, X), 'sub': "%s - %s" % (r, X), 'and': "%s & %s" % (r, X), 'nand': "~(%s & %s)" % (r, X),
                  'or': "%s | %s" % (r, X), 'xor': "%s ^ %s" % (r, X), 'umax': "(%s > %s ? %s : %s)" % (r, X, r, X), 'umin': "(%s < %s ? %s : %s)" % (r, X, r, X)}[nm]
            m = self.mem(p, t)
            if self.has_env:
                body.append("  vp_env(%s);" % self.val(p)); self.fref(self.byname["vp_env"])
            wr = ""
            if self.has_wr:
                self.fref(self.byname["vp_on_write"])
                wr = " vp_on_write(%s, %d, (u64)%s, (u64)%s);" % (self.val(p), self.bitsof(t) // 8, r, m)
            body.append("  %s = %s; %s = (%s)(%s);%s" % (r, m, m, ct, ex, wr))
        elif op == 'insertvalue':
            n = L.GetNumIndices(i); ix = L.GetIndices(i)
            a = o(0)
            path = self.aggpath(t, [ix[k] for k in range(n)])
            s = "  "
            if VK[L.GetValueKind(a)] not in ('UndefValue', 'PoisonValue'):
                s += "%s = %s; " % (self.loc[i], self.val(a))
            body.append(s + "%s%s = %s;" % (self.loc[i], path, self.val(o(1))))
        elif op in ('call', 'invoke'):
            self.call(i, op, b, body)
            if op == 'invoke':
                body.append("  " + self.edge(b, L.GetNormalDest(i), body))
        elif op in ('landingpad', 'resume'):
            body.append("  __CPROVER_assume(0);")
        else:
            body.append("  %s = %s;" % (self.loc[i], self.instr_expr(i, L.GetInstructionOpcode(i))))

    def set(self, i, e):
        if i in self.loc:
            return "  %s = %s;" % (self.loc[i], e)
        return "  (void)(%s);" % e if e else ";"

    def string_of(self, v):
        k = VK[L.GetValueKind(v)]
        if k == 'ConstantExpr':
            return self.string_of(L.GetOperand(v, 0))
        if k == 'GlobalVariable':
            ini = L.GetInitializer(v)
            if ini and L.IsAString(ini):
                n = L.C.c_size_t()
                return L.C.string_at(L.GetAsString(ini, L.C.byref(n)), n.value).decode("latin1").rstrip("\0")
        return "?"

    def pointee(self, v, n):
        """guess memory type at pointer v (for typed copies): (type) or None"""
        k = VK[L.GetValueKind(v)]
        if self.is_gep(v):
            r = self.gep_lv(v)
            return r[2]
        if k == 'GlobalVariable':
            return L.GlobalGetValueType(v)
        if k == 'Instruction' and OP[L.GetInstructionOpcode(v)] == 'alloca':
            return L.GetAllocatedType(v)
        # look at uses
        us = L.GetFirstUse(v)
        c = 0
        while us and c < 50:
            uu = L.GetUser(us)
            if VK[L.GetValueKind(uu)] == 'Instruction' and OP.get(L.GetInstructionOpcode(uu)) == 'getelementptr' and L.GetOperand(uu, 0) == v:
                st = L.GetGEPSourceElementType(uu)
                if n is None or self.size(st) == n:
                    return st
            us = L.GetNextUse(us); c += 1
        return None

    def copy_elem_type(self, a, b, n):
        """element type for a copy of n bytes (n may be None=symbolic)"""
        for v in (a, b):
            t = self.pointee(v, n)
            if t is None:
                continue
            while t is not None:
                sz = self.size(t)
                if sz and self.kind(t) != 'array' and (n is None or n % sz == 0):
                    return t
                if self.kind(t) == 'array':
                    t = L.GetElementType(t)
                elif self.kind(t) == 'struct' and not L.IsOpaqueStruct(t) and L.CountStructElementTypes(t):
                    t = L.StructGetTypeAtIndex(t, 0)
                else:
                    break
        return None

    def memcpy(self, i, d, s, n, move, body):
        nv = self.scalar_bits(n)
        if nv == 0:
            return
        t = self.copy_elem_type(d, s, nv)
        ts = self.copy_elem_type(s, d, nv)
        if nv is not None:
            if t is not None and self.size(t) == nv:
                body.append("  %s = %s;" % (self.elem(d, t, "0"), self.elem(s, t, "0")))
                return
            if t is not None and self.kind(t) in ('int', 'pointer') and self.size(t) in (1, 2, 4, 8) and nv // self.size(t) <= 64 or t is not None and self.kind(t) == 'struct' and nv // self.size(t) <= 64:
                es = self.size(t); T = t
            else:
                es = 8 if nv % 8 == 0 else 4 if nv % 4 == 0 else 2 if nv % 2 == 0 else 1
                T = None
            c = nv // es
            ct = self.ty(T) if T is not None else "u%d" % (es * 8)
            tmp = "mc%d" % self.uid()
            D = lambda k: self.elem(d, T, k) if T is not None else "((%s*)%s)[%s]" % (ct, self.val(d), k)
            S = lambda k: self.elem(s, T, k) if T is not None else "((%s*)%s)[%s]" % (ct, self.val(s), k)
            if c <= 32:
                body.append("  { %s %s[%d]; %s %s }" % (ct, tmp, c, " ".join("%s[%d] = %s;" % (tmp, k, S(str(k))) for k in range(c)),
                                                       " ".join("%s = %s[%d];" % (D(str(k)), tmp, k) for k in range(c))))
            else:
                body.append("  { %s %s[%d]; u64 k_; for (k_ = 0; k_ < %d; k_++) %s[k_] = %s; for (k_ = 0; k_ < %d; k_++) %s = %s[k_]; }" % (ct, tmp, c, c, tmp, S("k_"), c, D("k_"), tmp))
            return
        T = None; es = 1
        for cand in (t, ts):
            if cand is not None and self.kind(cand) in ('int', 'pointer', 'struct') and self.size(cand) > 0:
                if T is None or self.size(cand) < es:
                    T = cand; es = self.size(cand)
        nexp = self.val(n)
        if es > 1 and not self.divisible(n, es):
            T = None; es = 1
        if T is None:
            D = lambda k: "((u8*)%s)[%s]" % (self.val(d), k)
            S = lambda k: "((u8*)%s)[%s]" % (self.val(s), k)
        else:
            D = lambda k: self.elem(d, T, k)
            S = lambda k: self.elem(s, T, k)
        if T is not None and move:
            cs = self.const_shift(d, s, T)
            if cs:
                arr, N, c = cs
                di = self.gep_lv(d)
                if di and di[1] is not None:
                    D1, S1 = "(u64)(%s)" % di[1], None
                    si = self.gep_lv(s)
                    sidx = si[1] if si and si[1] is not None and self.same(si[2], T) else "0"
                    if di[0] == arr:
                        if c > 0:
                            lp = "for (k_ = %d; k_ >= %d; k_--) if (k_ >= d_ && k_ < d_ + n_) %s[k_] = %s[k_-%d];" % (N - 1, c, arr, arr, c)
                        else:
                            lp = "for (k_ = 0; k_ < %d; k_++) if (k_ >= d_ && k_ < d_ + n_) %s[k_] = %s[k_+%d];" % (N + c, arr, arr, -c)
                        body.append("  { u64 n_ = %s / %dul, k_, d_ = %s, s_ = (u64)(%s); __CPROVER_assert(%s %% %dul == 0 && d_ - s_ == (u64)%dl, \"typed memmove granularity\"); __CPROVER_assert(n_ == 0 || (n_ <= %d && d_ <= %d - n_ && s_ <= %d - n_), \"memmove stays inside the array\"); %s }" % (nexp, es, D1, sidx, nexp, es, c, N, N, N, lp))
                        return
        fwd = "for (k_ = 0; k_ < n_; k_++) %s = %s;" % (D("k_"), S("k_"))
        if move:
            bwd = "for (k_ = n_; k_ > 0; k_--) %s = %s;" % (D("k_-1"), S("k_-1"))
            body.append("  { u64 n_ = %s / %dul, k_; __CPROVER_assert(%s %% %dul == 0, \"typed memmove granularity\"); if (VP_PLT(%s, %s)) { %s } else { %s } }" % (nexp, es, nexp, es, self.val(d), self.val(s), fwd, bwd))
        else:
            body.append("  { u64 n_ = %s / %dul, k_; __CPROVER_assert(%s %% %dul == 0, \"typed memcpy granularity\"); %s }" % (nexp, es, nexp, es, fwd))

    def divisible(self, n, es):
        """is value n syntactically a multiple of es?"""
        k = VK[L.GetValueKind(n)]
        if k == 'ConstantInt':
            return self.intval(n) % es == 0
        if k != 'Instruction':
            return False
        op = OP[L.GetInstructionOpcode(n)]
        o = lambda j: L.GetOperand(n, j)
        if op == 'mul':
            return self.divisible(o(0), es) or self.divisible(o(1), es)
        if op == 'shl':
            c = self.scalar_bits(o(1))
            return c is not None and (1 << c) % es == 0
        if op == 'and':
            c = self.scalar_bits(o(1))
            return c is not None and c % es == 0
        if op in ('add', 'sub'):
            if self.divisible(o(0), es) and self.divisible(o(1), es):
                return True
            # pointer differences: ptrtoint(x) - ptrtoint(y)
            pi = lambda x: VK[L.GetValueKind(x)] == 'Instruction' and OP[L.GetInstructionOpcode(x)] == 'ptrtoint'
            return op == 'sub' and pi(o(0)) and pi(o(1))
        if op in ('zext', 'sext', 'trunc', 'freeze'):
            return self.divisible(o(0), es)
        if op == 'select':
            return self.divisible(o(1), es) and self.divisible(o(2), es)
        if op == 'phi':
            return False
        return False

    def uid(self):
        self._uid = getattr(self, "_uid", 0) + 1
        return self._uid

    def alloc_expr(self, i, sz):
        n = self.scalar_bits(sz)
        hints = self.opts.get("alloc", {})
        if n is not None:
            t = self.infer_alloc(i, n)
            if t is not None:
                return "vp_new_T(%s)" % ("struct " + self.struct(t))
        return "vp_new(%s)" % self.val(sz)

    def infer_alloc(self, v, n, depth=0):
        us = L.GetFirstUse(v)
        cands = []
        while us:
            uu = L.GetUser(us)
            if VK[L.GetValueKind(uu)] == 'Instruction':
                op = OP.get(L.GetInstructionOpcode(uu))
                if op == 'getelementptr' and L.GetOperand(uu, 0) == v:
                    st = L.GetGEPSourceElementType(uu)
                    if self.kind(st) == 'struct' and self.size(st) == n:
                        return st
                if op in ('call', 'invoke') and depth < 3:
                    cf = L.GetCalledValue(uu)
                    if VK[L.GetValueKind(cf)] == 'Function' and not L.IsDeclaration(cf):
                        for k in range(L.GetNumArgOperands(uu)):
                            if L.GetOperand(uu, k) == v:
                                r = self.infer_alloc(L.GetParam(cf, k), n, depth + 1)
                                if r is not None:
                                    return r
            us = L.GetNextUse(us)
        if depth == 0:
            h = self.opts.get("alloc", {}).get(str(n))
            if h:
                for t in self.all_structs():
                    nm = L.GetStructName(t)
                    if nm and re.search(h, nm.decode("latin1")) and self.size(t) == n:
                        return t
        return None

    def all_structs(self):
        if not hasattr(self, "_as"):
            s = set()
            def add(t):
                if t in s: return
                k = self.kind(t)
                if k == 'struct' and not L.IsOpaqueStruct(t):
                    s.add(t)
                    for i in range(L.CountStructElementTypes(t)):
                        add(L.StructGetTypeAtIndex(t, i))
                elif k == 'array':
                    add(L.GetElementType(t))
            for f in self.funcs:
                b = L.GetFirstBasicBlock(f) if not L.IsDeclaration(f) else None
                while b:
                    i = L.GetFirstInstruction(b)
                    while i:
                        op = OP.get(L.GetInstructionOpcode(i))
                        if op == 'getelementptr': add(L.GetGEPSourceElementType(i))
                        elif op == 'alloca': add(L.GetAllocatedType(i))
                        i = L.GetNextInstruction(i)
                    b = L.GetNextBasicBlock(b)
            for g in self.globals: add(L.GlobalGetValueType(g))
            self._as = s
        return self._as

    def call(self, i, op, b, body):
        cf = L.GetCalledValue(i)
        k = VK[L.GetValueKind(cf)]
        nargs = L.GetNumArgOperands(i)
        args = [L.GetOperand(i, j) for j in range(nargs)]
        t = L.TypeOf(i)
        A = lambda j: self.val(args[j])
        if k == 'GlobalAlias':
            cf = self.alias[cf]; k = VK[L.GetValueKind(cf)]
        if k == 'InlineAsm':
            s = cstr(L.PrintValueToString(cf))
            self.asm(i, s, args, body)
            return
        if k != 'Function':
            ft = L.GetCalledFunctionType(i)
            rt = self.ty(L.GetReturnType(ft))
            pts = [self.ty(L.TypeOf(a)) for a in args]
            e = "((%s(*)(%s))%s)(%s)" % (rt, ", ".join(pts) or "void", self.val(cf), ", ".join(A(j) for j in range(nargs)))
            body.append(self.set(i, e) if rt != "void" else "  %s;" % e)
            return
        n = self.funcs[cf]
        if n in self.replmap:
            n = self.replmap[n]; cf = self.byname[n]
        if n.startswith("llvm."):
            self.intrinsic(i, n, args, body)
            return
        if n == "vp_assert":
            body.append("  __CPROVER_assert(%s, %s);" % (A(0), json.dumps(self.string_of(args[1]))))
            return
        if n == "vp_cover":
            body.append("  __CPROVER_assert(0, %s);" % json.dumps("COVER " + self.string_of(args[0])))
            return
        if n == "vp_assume":
            body.append("  __CPROVER_assume(%s);" % A(0)); return
        if n == "vp_same_object":
            body.append(self.set(i, "__CPROVER_same_object(%s,%s)" % (A(0), A(1)))); return
        if n == "vp_register":
            body.append("  vp_register(%s,%s,%s);" % (A(0), A(1), A(2))); return
        if L.IsDeclaration(cf):
            if n == "__assert_fail" or n == "_ZSt21__glibcxx_assert_failPKciS0_S0_":
                body.append("  __CPROVER_assert(0, %s); __CPROVER_assume(0);" % json.dumps("assertion in code: " + self.string_of(args[0])))
                return
            if n in ABORT_EXT or n.startswith("_ZSt") and "__throw_" in n:
                msg = ABORT_EXT.get(n, "exception thrown: " + n)
                body.append("  __CPROVER_assert(0, %s); __CPROVER_assume(0);" % json.dumps(msg or n))
                return
            if n in ("_Znwm", "_Znam", "malloc", "valloc"):
                body.append(self.set(i, self.alloc_expr(i, args[0]))); return
            if n in ("_ZnwmSt11align_val_t", "_ZnamSt11align_val_t"):
                body.append(self.set(i, self.alloc_expr(i, args[0]))); return
            if n in ("aligned_alloc", "memalign"):
                body.append(self.set(i, self.alloc_expr(i, args[1]))); return
            if n == "calloc":
                body.append(self.set(i, "vp_calloc(%s,%s)" % (A(0), A(1)))); return
            if n in ("_ZdlPv", "_ZdaPv", "_ZdlPvm", "_ZdaPvm", "free", "_ZdlPvSt11align_val_t", "_ZdlPvmSt11align_val_t", "_ZdaPvmSt11align_val_t"):
                body.append("  vp_free(%s);" % A(0)); return
            if n in ("__cxa_allocate_exception", "__cxa_begin_catch", "__cxa_guard_acquire"):
                body.append(self.set(i, "(%s)0" % self.ty(t) if n != "__cxa_guard_acquire" else "1")); return
            if n in ("__cxa_end_catch", "__cxa_guard_release", "__cxa_free_exception", "_Unwind_Resume"):
                return
            if n in DROP_EXT:
                self.report["dropped"].append(n)
                if i in self.loc:
                    body.append("  %s = %s;" % (self.loc[i], self.nondet(t) if self.kind(t) != 'pointer' else "(vptr)0"))
                return
            if n in ("memcmp", "bcmp"):
                body.append(self.set(i, "vp_memcmp(%s,%s,%s)" % (A(0), A(1), A(2)))); return
            if n in ("memcpy", "memmove"):
                self.memcpy(i, args[0], args[1], args[2], n == "memmove", body)
                body.append(self.set(i, A(0))); return
            if n == "memset":
                body.append("  vp_memset(%s,%s,%s);" % (A(0), A(1), A(2))); body.append(self.set(i, A(0))); return
            if n == "strlen":
                body.append(self.set(i, "vp_strlen(%s)" % A(0))); return
        ft = L.GlobalGetValueType(cf)
        if L.IsFunctionVarArg(ft):
            self.report["dropped"].append(n)
            if i in self.loc:
                body.append("  %s = %s;" % (self.loc[i], self.nondet(t)))
            return
        name = self.fref(cf)
        al = []
        pre = ""
        for j in range(nargs):
            at = L.GetCallSiteEnumAttribute(i, j + 1, self.byval_kind)
            if at:
                bt = L.GetTypeAttributeValue(at)
                tmp = "bv%d" % self.uid()
                pre += "%s; %s = %s; " % (self.decl(bt, tmp), tmp, self.elem(args[j], bt, "0"))
                al.append("(vptr)&" + tmp)
            else:
                al.append(A(j))
        e = "%s(%s)" % (name, ", ".join(al))
        s = self.set(i, e) if i in self.loc else "  %s;" % e
        body.append("  { %s %s }" % (pre, s) if pre else s)

    def asm(self, i, s, args, body):
        m = re.search(r'asm (?:sideeffect )?(?:alignstack )?(?:inteldialect )?"([^"]*)", "([^"]*)"', s)
        txt = m.group(1) if m else s
        self.report["asm"].append(txt)
        t = L.TypeOf(i)
        A = lambda j: self.val(args[j])
        if txt.strip() in ("", "pause", "mfence", "lfence", "sfence", "rep; nop", "rep;nop", "pause\\0A"):
            if i in self.loc and args:
                body.append("  %s = %s;" % (self.loc[i], A(0)))
            return
        mm = re.match(r'^bswap([lq]?) \$0|^bswap \$0', txt)
        if mm and i in self.loc:
            w = self.bitsof(t)
            body.append("  %s = vp_bswap%d(%s);" % (self.loc[i], w, A(len(args) - 1))); return
        if re.match(r'^\s*prefetch\w* \$0\s*$', txt):
            return
        mm = re.match(r'^\s*lock; ?cmpxchg([bwlq]) \$2, ?\$1\s*$', txt)
        if mm and i in self.loc and m and m.group(2).startswith("={ax},=*m,r,0,*m"):
            pt = args[0]; r = self.loc[i]
            if self.has_env:
                body.append("  vp_env(%s);" % self.val(pt)); self.fref(self.byname["vp_env"])
            wr = ""
            if self.has_wr:
                self.fref(self.byname["vp_on_write"])
                wr = " vp_on_write(%s, %d, (u64)%s, (u64)%s);" % (self.val(pt), self.bitsof(t) // 8, r, A(1))
            mem = self.mem(pt, t)
            body.append("  %s = %s; if (%s == %s) { %s = %s;%s }" % (r, mem, r, A(2), mem, A(1), wr)); return
        h = self.opts.get("asm", {})
        for rx, e in h.items():
            if re.search(rx, txt):
                e2 = re.sub(r'\$(\d+)', lambda q: A(int(q.group(1))), e)
                body.append("  %s" % (e2.replace("%r", self.loc.get(i, "/*void*/"))))
                return
        raise Err("inline asm: " + s)

    def intrinsic(self, i, n, args, body):
        A = lambda j: self.val(args[j])
        t = L.TypeOf(i)
        if n.startswith(SKIP_INTRIN):
            if i in self.loc and self.kind(t) == 'pointer':
                body.append("  %s = (vptr)0;" % self.loc[i])
            return
        if n.startswith(("llvm.memcpy", "llvm.memmove")):
            self.memcpy(i, args[0], args[1], args[2], n.startswith("llvm.memmove"), body); return
        if n.startswith("llvm.memset"):
            nv = self.scalar_bits(args[2]); vv = self.scalar_bits(args[1])
            pt = self.pointee(args[0], nv) if nv is not None else None
            if pt is not None and vv == 0 and nv is not None and self.size(pt) == nv and self.kind(pt) in ('struct', 'array'):
                z = "z%d" % self.uid()
                if self.kind(pt) == 'struct':
                    body.append("  { static const %s %s; %s = %s; }" % (self.ty(pt), z, self.elem(args[0], pt, "0"), z)); return
                et = L.GetElementType(pt)
                if self.kind(et) in ('int', 'pointer') and L.GetArrayLength2(pt) <= 256:
                    body.append("  " + " ".join("%s = 0;" % self.elem(args[0], et, str(k)) for k in range(L.GetArrayLength2(pt)))); return
            if nv is not None and vv is not None and nv <= 4096:
                et = None
                if pt is not None:
                    et = pt
                    while self.kind(et) == 'array' or self.kind(et) == 'struct' and L.CountStructElementTypes(et):
                        et = L.GetElementType(et) if self.kind(et) == 'array' else L.StructGetTypeAtIndex(et, 0)
                es = self.size(et) if et is not None and self.kind(et) in ('int', 'pointer') else 8
                if nv % es: es = 1
                c = int.from_bytes(bytes([vv & 255]) * es, 'little')
                cs = self.lit(c, es * 8) if et is None or self.kind(et) != 'pointer' or es != 8 else ("(vptr)%dul" % c)
                if et is not None and self.size(et) == es and nv // es > 1:
                    T = lambda k: self.elem(args[0], et, k)
                else:
                    T = lambda k: "((u%d*)%s)[%s]" % (es * 8, A(0), k)
                body.append("  { u64 k_; for (k_ = 0; k_ < %d; k_++) %s = %s; }" % (nv // es, T("k_"), cs)); return
            body.append("  vp_memset(%s,%s,%s);" % (A(0), A(1), A(2))); return
        if n.startswith("llvm.expect"):
            body.append(self.set(i, A(0))); return
        if n == "llvm.assume":
            return
        if n.startswith("llvm.is.constant"):
            body.append(self.set(i, "0")); return
        if n.startswith("llvm.objectsize"):
            body.append(self.set(i, "%s" % ("(u64)-1"))); return
        if n.startswith(("llvm.launder", "llvm.strip", "llvm.ptr.annotation")):
            body.append(self.set(i, A(0))); return
        if n == "llvm.trap" or n == "llvm.ubsantrap":
            body.append('  __CPROVER_assert(0,"trap"); __CPROVER_assume(0);'); return
        if n == "llvm.stacksave":
            body.append(self.set(i, "(vptr)0")); return
        if n.startswith("llvm.threadlocal.address"):
            body.append(self.set(i, A(0))); return
        if n == "llvm.eh.typeid.for":
            body.append(self.set(i, "0")); return
        if n in ("llvm.x86.rdtsc", "llvm.readcyclecounter"):
            body.append(self.set(i, self.nondet(t))); return
        if n.startswith("llvm.x86.sse2.pause"):
            return
        if n.startswith(("llvm.x86.sse2.lfence", "llvm.x86.sse2.mfence", "llvm.x86.sse.sfence")):
            return
        m = re.match(r'llvm\.(ctpop|ctlz|cttz|bswap|bitreverse|abs|umin|umax|smin|smax|fshl|fshr|usub\.sat|uadd\.sat)\.(v(\d+))?i(\d+)$', n)
        if m:
            nm, _, vn, w = m.groups()
            w = int(w)
            nm = nm.replace('.', '_')
            if vn:
                vn = int(vn)
                nops = {'fshl': 3, 'fshr': 3, 'umin': 2, 'umax': 2, 'smin': 2, 'smax': 2, 'usub_sat': 2, 'uadd_sat': 2}.get(nm, 1)
                els = [self.scalar_intrin(nm, w, [self.ex(A(j), e, w) for j in range(nops)]) for e in range(vn)]
                body.append(self.set(i, self.pack(els, w)))
            else:
                body.append(self.set(i, self.scalar_intrin(nm, w, [A(j) for j in range(len(args))])))
            return
        m = re.match(r'llvm\.vector\.reduce\.(or|and|add|xor|umax|umin)\.v(\d+)i(\d+)$', n)
        if m:
            nm, vn, w = m.group(1), int(m.group(2)), int(m.group(3))
            o = {'or': '|', 'and': '&', 'add': '+', 'xor': '^'}[nm]
            body.append(self.set(i, "(%s)(%s)" % (self.ity(w), o.join(self.ex(A(0), k, w) for k in range(vn))))); return
        m = re.match(r'llvm\.(u|s)(add|sub|mul)\.with\.overflow\.i(\d+)$', n)
        if m:
            sg, o, w = m.group(1), m.group(2), int(m.group(3))
            W = 2 * w if w <= 64 else None
            self.bits.add(W)
            c = {'add': '+', 'sub': '-', 'mul': '*'}[o]
            r = self.loc[i]
            if sg == 'u':
                if o == 'sub':
                    body.append("  %s.f0 = %s - %s; %s.f1 = %s < %s;" % (r, A(0), A(1), r, A(0), A(1)))
                elif o == 'add':
                    body.append("  %s.f0 = %s + %s; %s.f1 = %s.f0 < %s;" % (r, A(0), A(1), r, r, A(0)))
                else:
                    body.append("  %s.f0 = %s * %s; %s.f1 = (((u%d)%s * (u%d)%s) >> %d) != 0;" % (r, A(0), A(1), r, W, A(0), W, A(1), w))
            else:
                body.append("  { s%d q_ = (s%d)%s %s (s%d)%s; %s.f0 = (u%d)q_; %s.f1 = q_ != (s%d)(s%d)(u%d)q_; }" % (W, W, self.signed(A(0), w), c, W, self.signed(A(1), w), r, w, r, W, w, w))
            return
        m = re.match(r'llvm\.x86\.(sse2|avx2)\.pmovmskb', n)
        if m:
            nb = 16 if m.group(1) == 'sse2' else 32
            a = A(0)
            body.append(self.set(i, "(u32)(%s)" % "|".join("((u32)((%s >> %d)&1) << %d)" % (a, 8 * k + 7, k) for k in range(nb)))); return
        m = re.match(r'llvm\.x86\.sse\.movmsk\.ps|llvm\.x86\.avx\.movmsk\.ps\.256', n)
        if m and self.kind(L.TypeOf(args[0])) == 'vector':
            nb = L.GetVectorSize(L.TypeOf(args[0])); ew = self.bitsof(L.GetElementType(L.TypeOf(args[0])))
            a = A(0)
            body.append(self.set(i, "(u32)(%s)" % "|".join("((u32)((%s >> %d)&1) << %d)" % (a, ew * k + ew - 1, k) for k in range(nb)))); return
        m = re.match(r'llvm\.x86\.bmi\.(pext|pdep)\.(32|64)', n)
        if m:
            body.append(self.set(i, "vp_%s%s(%s,%s)" % (m.group(1), m.group(2), A(0), A(1)))); return
        m = re.match(r'llvm\.x86\.sse42\.crc32\.(\d+)\.(\d+)', n)
        if m:
            body.append(self.set(i, "(%s)vp_crc32_%s((u32)%s,%s)" % (self.ty(t), m.group(2), A(0), A(1)))); return
        m = re.match(r'llvm\.x86\.(ssse3|avx2)\.pshuf\.b', n)
        if m:
            nb = self.bitsof(t) // 8
            a, c = A(0), A(1)
            els = []
            for k in range(nb):
                lane = (k // 16) * 16
                cb = "((u8)(%s >> %d))" % (c, 8 * k)
                els.append("((%s & 0x80) ? (u8)0 : (u8)(%s >> (8*((u32)(%s & 15)+%d))))" % (cb, a, cb, lane))
            body.append(self.set(i, self.pack(els, 8))); return
        m = re.match(r'llvm\.x86\.sse2\.(psrli|pslli)\.(d|q|w)|llvm\.x86\.avx2\.(psrli|pslli)\.(d|q|w)', n)
        if m:
            kind = m.group(1) or m.group(3); ew = {'w': 16, 'd': 32, 'q': 64}[m.group(2) or m.group(4)]
            vn = self.bitsof(t) // ew
            o = '>>' if kind == 'psrli' else '<<'
            els = ["(%s >= %d ? (u%d)0 : (u%d)(%s %s %s))" % (A(1), ew, ew, ew, self.ex(A(0), k, ew), o, A(1)) for k in range(vn)]
            body.append(self.set(i, self.pack(els, ew))); return
        h = self.opts.get("intrin", {})
        if n in h:
            body.append(self.set(i, "%s(%s)" % (h[n], ", ".join(A(j) for j in range(len(args)))))); return
        raise Err("intrinsic " + n)

    def scalar_intrin(self, nm, w, a):
        ct = self.ity(w)
        if nm in ('ctpop', 'ctlz', 'cttz', 'bswap', 'bitreverse'):
            return "(%s)vp_%s%d(%s)" % (ct, nm, w, a[0]) if w in (8, 16, 32, 64) else self._odd(nm, w, a)
        if nm in ('umin', 'umax'):
            return "(%s %s %s ? %s : %s)" % (a[0], '<' if nm == 'umin' else '>', a[1], a[0], a[1])
        if nm in ('smin', 'smax'):
            return "(%s %s %s ? %s : %s)" % (self.signed(a[0], w), '<' if nm == 'smin' else '>', self.signed(a[1], w), a[0], a[1])
        if nm == 'abs':
            return "(%s < 0 ? (%s)(-%s) : %s)" % (self.signed(a[0], w), ct, a[0], a[0])
        if nm == 'usub_sat':
            return "(%s < %s ? (%s)0 : (%s)(%s - %s))" % (a[0], a[1], ct, ct, a[0], a[1])
        if nm == 'uadd_sat':
            return "((%s)(%s + %s) < %s ? (%s)-1 : (%s)(%s + %s))" % (ct, a[0], a[1], a[0], ct, ct, a[0], a[1])
        if nm == 'fshl':
            return "(%s)((%s %% %d) == 0 ? %s : (%s)((%s)(%s << (%s %% %d)) | (%s >> (%d - %s %% %d))))" % (ct, a[2], w, a[0], ct, ct, a[0], a[2], w, a[1], w, a[2], w)
        if nm == 'fshr':
            return "(%s)((%s %% %d) == 0 ? %s : (%s)((%s)(%s << (%d - %s %% %d)) | (%s >> (%s %% %d))))" % (ct, a[2], w, a[1], ct, ct, a[0], w, a[2], w, a[1], a[2], w)
        raise Err(nm)

    def _odd(self, nm, w, a):
        if nm == 'ctpop':
            return "(" + "+".join("((%s >> %d)&1)" % (a[0], k) for k in range(w)) + ")"
        raise Err(nm + str(w))

    # ---------- driver
    def run(self, entries):
        for e in entries:
            if e not in self.byname:
                raise Err("no entry " + e)
            self.fref(self.byname[e])
        for n in ("vp_env", "vp_env_store", "vp_on_write"):
            if n in self.byname and not L.IsDeclaration(self.byname[n]):
                self.fref(self.byname[n])
        gdefs = []
        while self.queue or self.gqueue:
            while self.queue:
                f = self.queue.pop()
                try:
                    self.function(f)
                except Err as ex:
                    raise Err("in %s: %s" % (self.dem.get(self.funcs[f]), ex))
            while self.gqueue:
                g = self.gqueue.pop()
                t = L.GlobalGetValueType(g)
                self.loc = {}
                d = self.decl(t, self.gdone[g])
                ini = L.GetInitializer(g) if not L.IsDeclaration(g) else None
                k = VK[L.GetValueKind(ini)] if ini else None
                if self.kind(t) == 'struct' and L.IsOpaqueStruct(t):
                    gdefs.append((d + ";", ""))
                elif ini and k not in ('ConstantAggregateZero', 'UndefValue'):
                    gdefs.append((d + ";", "%s = %s;" % (d, self.init(ini))))
                else:
                    gdefs.append((d + ";", ""))
        out = ['#include "vp_prelude.h"']
        for w in sorted(x for x in self.bits if x):
            if w not in (1, 8, 16, 32, 64):
                out.append("VP_BITS(%d)" % w)
        out += self.structs
        exts = []
        for n, f in sorted(self.externs.items()):
            nm = self.cname(n)
            if n.startswith("vp_"):
                exts.append(self.sig(f, nm) + ";")
                continue
            self.report["externals"].append(n)
            rt = L.GetReturnType(L.GlobalGetValueType(f))
            r = "" if self.kind(rt) == 'void' else ("return (%s)0;" % self.ty(rt) if self.kind(rt) in ('int', 'pointer', 'double', 'float') else "%s z_; return z_;" % self.ty(rt))
            exts.append(self.sig(f, nm) + " { __CPROVER_assert(0, %s); __CPROVER_assume(0); %s }" % (json.dumps("call to unmodelled external " + n), r))
        fns = [(self.sig(f, self.cname(self.funcs[f])), s) for f, s in self.out_funcs.items()]
        out += [p for p in self.protos.values()]
        out += [a for a, _ in gdefs]
        out += [s + ";" for s, _ in fns]
        out += exts
        out += [b for _, b in gdefs if b]
        out += [s for _, s in fns]
        return "\n".join(out) + "\n"

def hash_s(s):
    h = 5381
    for c in s:
        h = (h * 33 + ord(c)) & 0xffffffff
    return h

def demangle(names):
    p = subprocess.run(["c++filt"], input="\n".join(names), capture_output=True, text=True)
    return dict(zip(names, p.stdout.split("\n")))

def translate(path, entries, opts):
    mod = L.parse(path)
    tr = Tr(mod, opts)
    c = tr.run(entries)
    return c, tr.report

if __name__ == "__main__":
    ap = argparse.ArgumentParser()
    ap.add_argument("ll"); ap.add_argument("-o"); ap.add_argument("-e", action="append")
    ap.add_argument("--opts", default="{}"); ap.add_argument("--report")
    a = ap.parse_args()
    c, r = translate(a.ll, a.e, json.loads(a.opts))
    open(a.o, "w").write(c)
    if a.report:
        json.dump(r, open(a.report, "w"), indent=1)
