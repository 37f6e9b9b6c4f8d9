#!/usr/bin/env python3
"""swap.py IN.ll OUT.ll TRIPLE LAYOUT: LLVM text of a big-endian machine -> text that this machine can compile.

Every load and store of more than one byte gets a byte swap, and so do the numbers in initialisers: memory then
holds what it would hold on the big-endian machine.  Pointers stay as they are (nobody looks at their bytes).
Exits with status 3 on text it does not understand."""
import re
import sys

src, dst, triple, layout = sys.argv[1:5]
out = []
used = set()
count = 0


def bad(line):
    sys.stderr.write("swap.py: " + line[:300] + "\n")
    sys.exit(3)


def width(t, line):
    m = re.fullmatch(r"i(\d+)", t)
    if not m:
        bad(line)
    n = int(m.group(1))
    if n <= 8:
        return 0
    if n not in (16, 32, 64, 128):
        bad(line)
    used.add(n)
    return n


def literal(m):
    n, v = int(m.group(1)), int(m.group(2))
    if n <= 8:
        return m.group(0)
    if n not in (16, 32, 64):
        bad(m.group(0))
    return "i%d %d" % (n, int.from_bytes((v & ((1 << n) - 1)).to_bytes(n // 8, "big"), "little"))


for line in open(src):
    line = line.rstrip("\n")
    if line.startswith("target datalayout"):
        line = 'target datalayout = "%s"' % layout
    elif line.startswith("target triple"):
        line = 'target triple = "%s"' % triple
    elif line.startswith("attributes "):
        line = re.sub(r'"(target-cpu|target-features|tune-cpu|target-abi)"="[^"]*"', "", line)
    elif line.startswith("@"):
        m = re.match(r'(@\S+ = .*?\b(?:global|constant) )(.*)$', line)
        if m:
            body, tail = m.group(2), ""
            k = re.search(r", align \d+.*$|, section .*$", body)
            if k:
                body, tail = body[:k.start()], body[k.start():]
            if re.search(r"getelementptr|ptrtoint|\bfloat\b|\bdouble\b", body):
                if re.search(r"ptrtoint|float|double|i(16|32|64) -?\d+.*getelementptr.*, i(16|32) ", body):
                    bad(line)
                parts = re.split(r"(getelementptr[^()]*\([^()]*\))", body)
                body = "".join(p if p.startswith("getelementptr") else re.sub(r"\bi(\d+) (-?\d+)\b", literal, p) for p in parts)
            else:
                parts = re.split(r'(c"[^"]*")', body)
                body = "".join(p if p.startswith('c"') else re.sub(r"\bi(\d+) (-?\d+)\b", literal, p) for p in parts)
            line = m.group(1) + body + tail
    else:
        m = re.match(r"(\s+)(%\S+) = load (volatile )?(\S+), (.*)$", line)
        s = re.match(r"(\s+)store (volatile )?(\S+) (\S+), (.*)$", line)
        if re.search(r"\b(load|store) atomic\b|\b(cmpxchg|atomicrmw|va_arg)\b", line) and not line.lstrip().startswith(";"):
            bad(line)
        if m:
            t = m.group(4)
            n = 0 if t == "ptr" else width(t, line)
            if n:
                count += 1
                out.append("%s%%be%d = load %s%s, %s" % (m.group(1), count, m.group(3) or "", t, m.group(5)))
                line = "%s%s = call i%d @llvm.bswap.i%d(i%d %%be%d)" % (m.group(1), m.group(2), n, n, n, count)
        elif s:
            t = s.group(3)
            n = 0 if t == "ptr" else width(t, line)
            if n:
                count += 1
                out.append("%s%%be%d = call i%d @llvm.bswap.i%d(i%d %s)" % (s.group(1), count, n, n, n, s.group(4)))
                line = "%sstore %s%s %%be%d, %s" % (s.group(1), s.group(2) or "", t, count, s.group(5))
        elif re.match(r"\s+(%\S+ = )?(load|store)\b", line):
            bad(line)
    out.append(line)
text = "\n".join(out) + "\n"
for n in sorted(used):
    if "declare i%d @llvm.bswap.i%d(" % (n, n) not in text:
        text += "declare i%d @llvm.bswap.i%d(i%d)\n" % (n, n, n)
open(dst, "w").write(text)
