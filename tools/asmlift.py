#!/usr/bin/env python3
"""asmlift.py FILE.asm OUT.c: assemble with nasm (the library's own flags), disassemble the
object and translate the reachable code of every global function to C, one statement
group per instruction, xmm registers as eight 16-bit lanes.  The C is compiled to IR and
executed symbolically; it is also run natively beside the real object (asmdiff)."""
import re, subprocess, sys, os, tempfile

R64 = "rax rbx rcx rdx rsi rdi rbp rsp r8 r9 r10 r11 r12 r13 r14 r15".split()
REG = {}
for r in R64:
    REG[r] = (r, 64, 0)
for i, l in enumerate(("a", "b", "c", "d")):
    REG["e%sx" % l] = ("r%sx" % l, 32, 0); REG["%sx" % l] = ("r%sx" % l, 16, 0); REG["%sl" % l] = ("r%sx" % l, 8, 0); REG["%sh" % l] = ("r%sx" % l, 8, 8)
for l in ("si", "di", "bp", "sp"):
    REG["e" + l] = ("r" + l, 32, 0); REG[l] = ("r" + l, 16, 0); REG[l + "l"] = ("r" + l, 8, 0)
for i in range(8, 16):
    REG["r%dd" % i] = ("r%d" % i, 32, 0); REG["r%dw" % i] = ("r%d" % i, 16, 0); REG["r%db" % i] = ("r%d" % i, 8, 0)
SZ = {"BYTE": 8, "WORD": 16, "DWORD": 32, "QWORD": 64, "XMMWORD": 128}
JCC = {"e": "zf", "z": "zf", "ne": "!zf", "nz": "!zf", "l": "sf!=of", "ge": "sf==of", "le": "(zf||sf!=of)", "g": "(!zf&&sf==of)", "b": "cf", "c": "cf", "ae": "!cf", "nc": "!cf", "be": "(cf||zf)", "a": "(!cf&&!zf)", "s": "sf", "ns": "!sf"}


class Unsupported(Exception):
    pass


class Op:
    pass


def operand(t, tgt):
    o = Op(); t = t.strip()
    if t in REG:
        o.k, (o.r, o.w, o.sh) = "r", REG[t]; return o
    m = re.fullmatch(r"xmm(\d+)", t)
    if m:
        o.k, o.x, o.w = "x", "x" + m.group(1), 128; return o
    if re.fullmatch(r"-?(0x)?[0-9a-f]+", t):
        o.k, o.v, o.w = "i", int(t, 0 if t.lstrip("-").startswith("0x") else 10), 0; return o
    m = re.fullmatch(r"(?:(\w+) PTR )?(?:[a-z]s:)?\[(.*)\]", t)
    if not m:
        raise Unsupported("operand " + t)
    o.k, o.w = "m", SZ.get(m.group(1), 0)
    if "rip" in m.group(2):
        if tgt is None:
            raise Unsupported("rip operand " + t)
        o.a = "((u64)(size_t)text+%d)" % tgt
    else:
        parts = re.findall(r"([+-]?)([^+-]+)", m.group(2)); e = []
        for sg, x in parts:
            if x in REG: y = REG[x][0]
            elif "*" in x:
                a, b = x.split("*"); y = "%s*%s" % (REG[a][0], b)
            else: y = "%dull" % int(x, 0)
            e.append((sg or "+") + y)
        o.a = "(" + "".join(e).lstrip("+") + ")"
        if o.a.startswith("(-"): o.a = "(0ull" + o.a[1:]
    return o


def rd(o, w=None):
    w = w or o.w
    if o.k == "r": return o.r if o.w == 64 else "((%s>>%d)&0x%xull)" % (o.r, o.sh, (1 << o.w) - 1)
    if o.k == "i": return "0x%xull" % (o.v & ((1 << w) - 1))
    if o.k == "m": return "(u64)*(u%d*)(size_t)%s" % (w, o.a)
    raise Unsupported("scalar read of " + o.k)


def wr(o, e, w=None):
    w = w or o.w
    if o.k == "r":
        if o.w == 64: return "%s=(%s);" % (o.r, e)
        if o.w == 32: return "%s=(u32)(%s);" % (o.r, e)
        m = ((1 << o.w) - 1) << o.sh
        return "%s=(%s&~0x%xull)|(((u64)(%s)<<%d)&0x%xull);" % (o.r, o.r, m, e, o.sh, m)
    if o.k == "m": return "*(u%d*)(size_t)%s=(u%d)(%s);" % (w, o.a, w, e)
    raise Unsupported("scalar write")


def xsrc(o, al=True):
    """statement loading the operand into temporary t, and its name"""
    if o.k == "x": return "", o.x
    if o.k == "m": return "ld128(&t,%s,%d);" % (o.a, 1 if al else 0), "t"
    raise Unsupported("xmm operand")


def flags(w, res, cf="0", of="0"):
    return "{u64 q_=(%s)&0x%xull;zf=q_==0;sf=(int)(q_>>%d)&1;}cf=%s;of=%s;" % (res, (1 << w) - 1, w - 1, cf, of)


def emit(mn, ops, tgt, nxt, addr):
    n = len(ops); d = ops[0] if n else None; s = ops[1] if n > 1 else None
    w = (d.w or (s.w if s else 0)) if d else 0
    if mn in ("nop", "endbr64", "rex", "nopw", "nopl", "xchg") and mn != "xchg": return ""
    if mn == "ret": return "RET;"
    if mn in ("leave",): raise Unsupported(mn)
    if mn == "push": return "rsp-=8;*(u64*)(size_t)rsp=%s;" % rd(d, 64)
    if mn == "pop": return "{u64 v_=*(u64*)(size_t)rsp;rsp+=8;%s}" % wr(d, "v_")
    if mn in ("mov", "movabs"): return wr(d, rd(s, w), w)
    if mn == "movzx": return wr(d, rd(s, s.w))
    if mn in ("movsx", "movsxd"): return wr(d, "(u64)(long long)(s%d)%s" % (s.w, rd(s, s.w)))
    if mn == "lea": return wr(d, s.a)
    if mn in ("add", "sub", "cmp", "and", "or", "xor", "test"):
        a, b = rd(d, w), rd(s, w); m = "0x%xull" % ((1 << w) - 1); top = w - 1
        c = {"add": "+", "sub": "-", "cmp": "-", "and": "&", "or": "|", "xor": "^", "test": "&"}[mn]
        r = "{u64 a_=%s,b_=%s,r_=(a_%sb_)&%s;" % (a, b, c, m)
        if c == "+": r += flags(w, "r_", "r_<a_", "(int)((~(a_^b_)&(a_^r_))>>%d)&1" % top)
        elif c == "-": r += flags(w, "r_", "a_<b_", "(int)(((a_^b_)&(a_^r_))>>%d)&1" % top)
        else: r += flags(w, "r_")
        if mn not in ("cmp", "test"): r += wr(d, "r_", w)
        return r + "}"
    if mn in ("inc", "dec", "neg", "not"):
        a = rd(d, w); e = {"inc": "a_+1", "dec": "a_-1", "neg": "0-a_", "not": "~a_"}[mn]
        return "{u64 a_=%s,r_=%s;%s%s}" % (a, e, "" if mn == "not" else "{int c_=cf;%scf=%s;}" % (flags(w, "r_", "0", "0"), "c_" if mn != "neg" else "a_!=0"), wr(d, "r_", w))
    if mn in ("shl", "sal", "shr", "sar"):
        cnt = rd(s, 8) if s else "1ull"; cnt = "((%s)&%d)" % (cnt, 63 if w == 64 else 31); a = rd(d, w)
        e = {"shl": "a_<<c_", "sal": "a_<<c_", "shr": "a_>>c_", "sar": "(u64)((s%d)a_>>c_)" % w}[mn]
        return "{u64 a_=%s;int c_=(int)%s;u64 r_=%s;if(c_){%s}%s}" % (a, cnt, e, flags(w, "r_"), wr(d, "r_", w))
    if mn == "imul":
        if n == 3: return wr(d, "(u64)((s%d)%s*(s%d)%s)" % (w, rd(s, w), w, rd(ops[2], w)))
        if n == 2: return wr(d, "(u64)((s%d)%s*(s%d)%s)" % (w, rd(d), w, rd(s, w)))
        raise Unsupported("imul1")
    if mn == "cdqe": return "rax=(u64)(long long)(s32)rax;"
    # --- vector
    if mn in ("movdqa", "movaps", "movdqu", "movups", "lddqu", "movapd"):
        al = mn in ("movdqa", "movaps", "movapd")
        if d.k == "x": st, x = xsrc(s, al); return "%s%s=%s;" % (st, d.x, x)
        return "st128(%s,&%s,%d);" % (d.a, s.x, 1 if al else 0)
    if mn in ("movd", "movq"):
        k = 32 if mn == "movd" else 64
        if d.k == "x":
            if s.k == "x": return "lowq(&%s,&%s);" % (d.x, s.x)
            return "setq(&%s,%s);" % (d.x, rd(s, s.w or k) if s.k == "r" else rd(s, k))
        if d.k == "r": return wr(d, "%s(%s)" % ("getd" if d.w == 32 else "getq", s.x))
        return "*(u%d*)(size_t)%s=(u%d)getq(%s);" % (k, d.a, k, s.x)
    if mn in ("pand", "por", "pxor", "pandn", "andps", "orps", "xorps"):
        st, x = xsrc(s); f = {"pand": "a&b", "andps": "a&b", "por": "a|b", "orps": "a|b", "pxor": "a^b", "xorps": "a^b", "pandn": "~a&b"}[mn]
        return "%sLANES(%s,%s,%s);" % (st, d.x, x, f)
    WL = {"paddw": "a+b", "psubw": "a-b", "pmullw": "(u16)((s16)a*(s16)b)", "pmulhw": "((s16)a*(s16)b)>>16", "paddsw": "SAT16_((s16)a+(s16)b)", "psubsw": "SAT16_((s16)a-(s16)b)",
          "paddusw": "(a+b>65535?65535:a+b)", "psubusw": "(a<b?0:a-b)", "pminsw": "((s16)a<(s16)b?a:b)", "pmaxsw": "((s16)a>(s16)b?a:b)", "pcmpeqw": "(a==b?65535:0)", "pcmpgtw": "((s16)a>(s16)b?65535:0)", "pavgw": "(a+b+1)>>1"}
    if mn in WL:
        st, x = xsrc(s)
        return "%sLANES(%s,%s,%s);" % (st, d.x, x, WL[mn])
    BL = {"paddb": "a+b", "psubb": "a-b", "pcmpeqb": "(a==b?255:0)", "pminub": "(a<b?a:b)", "pmaxub": "(a>b?a:b)", "pavgb": "(a+b+1)>>1"}
    if mn in BL:
        st, x = xsrc(s)
        return "%sBLANES(%s,%s,%s);" % (st, d.x, x, BL[mn])
    if mn in ("paddd", "psubd"):
        st, x = xsrc(s); return "%sDLANES(%s,%s,%s);" % (st, d.x, x, "a+b" if mn == "paddd" else "a-b")
    m = re.fullmatch(r"ps(ra|rl|ll)(w|d)", mn)
    if m:
        cnt = "%dull" % s.v if s.k == "i" else None; st = ""
        if cnt is None: st, x = xsrc(s); cnt = "getq(%s)" % x
        return "%sv%s%s(&%s,&%s,%s);" % (st, m.group(1), m.group(2), d.x, d.x, cnt)
    if mn in ("psrldq", "pslldq"): return "%s(&%s,&%s,%d);" % (mn, d.x, d.x, s.v)
    if mn in ("punpcklbw", "punpckhbw", "punpcklwd", "punpckhwd", "punpckldq", "punpckhdq", "punpcklqdq", "punpckhqdq", "packssdw", "packusdw", "packuswb", "packsswb"):
        st, x = xsrc(s); return "%s%s(&%s,&%s,&%s);" % (st, mn, d.x, d.x, x)
    if mn in ("pshufd", "pshuflw", "pshufhw"):
        st, x = xsrc(s); return "%s%s(&%s,&%s,%d);" % (st, mn, d.x, x, ops[2].v)
    if mn == "pmovsxwd":
        if s.k == "x": return "t=%s;{int i_;for(i_=0;i_<4;i_++)SETD(%s,i_,(u32)(s32)(s16)t.w[i_]);}" % (s.x, d.x)
    if mn in ("pabsw",):
        st, x = xsrc(s); return "%sLANES(%s,%s,(s16)b<0?-b:b);" % (st, d.x, x)
    if mn == "pmovzxbw":
        if s.k == "x": return "punpcklbw(&%s,&%s,&zero);" % (d.x, s.x)
        return "setq(&t,(u64)*(u64*)(size_t)%s);punpcklbw(&%s,&t,&zero);" % (s.a, d.x)
    if mn == "pinsrw": return "%s.w[%d]=(u16)%s;" % (d.x, ops[2].v & 7, rd(s, 16))
    if mn == "pextrw": return wr(d, "%s.w[%d]" % (s.x, ops[2].v & 7))
    raise Unsupported("instruction %s" % mn)


def split_ops(t):
    r, dep, cur = [], 0, ""
    for ch in t:
        if ch == "[": dep += 1
        if ch == "]": dep -= 1
        if ch == "," and not dep: r.append(cur); cur = ""
        else: cur += ch
    if cur.strip(): r.append(cur)
    return r


PRE = open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "asmlift_rt.h")).read


def lift(asm, incdir, suffix=""):
    tmp = tempfile.mkdtemp()
    try:
        o = os.path.join(tmp, "a.o")
        subprocess.run(["nasm", "-f", "elf64", "-DASM_ARCH_AMD64", "-I" + incdir + "/", asm, "-o", o], check=True, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        dis = subprocess.run(["objdump", "-dr", "-M", "intel", "--no-show-raw-insn", "-j", ".text", o], check=True, stdout=subprocess.PIPE, text=True).stdout
        sym = subprocess.run(["nm", o], check=True, stdout=subprocess.PIPE, text=True).stdout
        subprocess.run(["objcopy", "-O", "binary", "-j", ".text", o, os.path.join(tmp, "t.bin")], check=True)
        text = open(os.path.join(tmp, "t.bin"), "rb").read()
    finally:
        subprocess.run(["rm", "-rf", tmp])
    if "R_X86_64" in dis: raise Unsupported("relocations")
    ins, order = {}, []
    for l in dis.splitlines():
        m = re.match(r"\s+([0-9a-f]+):\t(\S+)\s*(.*)$", l)
        if m:
            a = int(m.group(1), 16); rest = m.group(3); tgt = None
            c = re.search(r"#\s*([0-9a-f]+)", rest)
            if c: tgt = int(c.group(1), 16); rest = rest[:c.start()]
            ins[a] = (m.group(2), rest.strip(), tgt); order.append(a)
    nxt = {a: b for a, b in zip(order, order[1:])}
    out = []
    globs = [(int(l.split()[0], 16), l.split()[2]) for l in sym.splitlines() if len(l.split()) == 3 and l.split()[1] == "T"]
    for entry, name in globs:
        seen, todo, code, labels, rets = set(), [entry], {}, {entry}, []
        while todo:
            a = todo.pop()
            while a not in seen:
                if a not in ins: raise Unsupported("control reaches %#x" % a)
                seen.add(a); mn, rest, tgt = ins[a]
                if mn in ("bnd", "rep", "repz"): mn, _, rest = rest.partition(" ")
                if mn == "call":
                    t = int(rest.split()[0], 16); labels.add(t); todo.append(t); rets.append(nxt[a]); labels.add(nxt[a])
                    code[a] = "CALL(L%x,%d);" % (t, len(rets)); a = nxt[a]; continue
                if mn == "jmp":
                    t = int(rest.split()[0], 16); labels.add(t); code[a] = "goto L%x;" % t; a = t; continue
                if mn[0] == "j":
                    if mn[1:] not in JCC: raise Unsupported(mn)
                    t = int(rest.split()[0], 16); labels.add(t); todo.append(t); code[a] = "if(%s)goto L%x;" % (JCC[mn[1:]], t); a = nxt[a]; continue
                code[a] = emit(mn, [operand(x, tgt) for x in split_ops(rest)], tgt, None, a) + " /* %s %s */" % (mn, rest)
                if mn == "ret": break
                a = nxt[a]
        body = []; addrs = sorted(code)
        for i, a in enumerate(addrs):
            if a in labels: body.append("L%x:;" % a)
            body.append("  " + code[a])
            nx = nxt.get(a)
            if not code[a].startswith(("RET", "goto")) and nx is not None and (i + 1 >= len(addrs) or addrs[i + 1] != nx): labels.add(nx); body.append("  goto L%x;" % nx)
        sw = "".join("case %d: goto L%x;" % (i + 1, r) for i, r in enumerate(rets))
        out.append("""
int %s%s(u64 a0, u64 a1, u64 a2, u64 a3) {
  u64 stk[64]; u64 rax=0x7777,rbx=0x1111,rcx=a3,rdx=a2,rsi=a1,rdi=a0,rbp=0x2222,rsp,r8=0x8888,r9=0x9999,r10=0xaaaa,r11=0xbbbb,r12=0x3333,r13=0x4444,r14=0x5555,r15=0x6666;
  int zf=0,sf=0,cf=0,of=0,rid; V t,%s; static const V zero={{0}};
  (void)zf;(void)sf;(void)cf;(void)of;(void)t;(void)zero;
  rsp=(u64)(size_t)(stk+60); *(u64*)(size_t)rsp=0; u64 rsp0=rsp;
  goto L%x;
%s
dispatch: switch(rid){%s default: break;}
  LIFT_ASSERT(rsp==rsp0+8 && rbx==0x1111 && rbp==0x2222 && r12==0x3333 && r13==0x4444 && r14==0x5555 && r15==0x6666, "the assembly restores the stack and the callee-saved registers");
  return (int)rax;
}
""" % (name, suffix, ",".join("x%d={{%s}}" % (i, ",".join(str((0x5a31 + 257 * i + 4099 * j) & 0xffff) for j in range(8))) for i in range(16)), entry, "\n".join(body), sw))
    txt = "static const u8 text[%d] __attribute__((aligned(16))) = {%s};\n" % (len(text), ",".join(map(str, text)))
    return PRE() + txt + "".join(out), [n for _, n in globs], text


if __name__ == "__main__":
    c, names, _ = lift(sys.argv[1], sys.argv[3] if len(sys.argv) > 3 else "/repo/src", sys.argv[4] if len(sys.argv) > 4 else "")
    open(sys.argv[2], "w").write(c)
    print(names)
