"""write replay/src/gen.rs from the instruction table (the same table the contracts use)"""
import os
import sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(HERE, "..", "units"), HERE]
from optable import TABLE  # noqa: E402


def conv(k, i, lab):
    x = "a[%d]" % i
    if k[:2] in ("P:", "S:"):
        return "PoolIndex::new(%s as u32)" % x
    if k[0] == "O" or k == "T":
        return "Label { index: %s as usize }" % x if lab else "Offset::new(%s as i16)" % x
    if k == "f32":
        return "f32::from_bits(%s as u32)" % x
    if k == "f64":
        return "f64::from_bits(%s)" % x
    if k == "BP":
        return "Box::new(breakpoint(%s))" % x
    if k == "PROF":
        return "Box::new(profiling(%s))" % x
    return "%s as %s" % (x, k)


def wire(k, i):
    x = "a[%d]" % i
    if k[:2] in ("P:", "S:"):
        return "o.extend((%s as u32).to_le_bytes());" % x
    if k[0] == "O":
        return "o.extend((%s as u16).wrapping_sub(%s).to_le_bytes());" % (x, k[2:])
    if k == "T":
        return ""
    if k == "BP":
        return "o.extend(breakpoint_bytes(%s));" % x
    if k == "PROF":
        return "o.extend(profiling_bytes(%s));" % x
    if k in ("f32", "f64"):
        return "o.extend((%s as u%s).to_le_bytes());" % (x, k[1:])
    return "o.extend((%s as %s).to_le_bytes());" % (x, k)


def memsz(k):
    from optable import mem
    if k == "T":
        return "0"
    if k == "PROF":
        return "5"
    return str(mem(k))


def main():
    o = ["// generated by lib/gen_replay.py from units/optable.py", "use redscript::bundle::PoolIndex;", "use redscript::bytecode::*;",
         "use crate::util::*;", "",
         "pub const NAMES: [&str; 104] = [%s];" % ", ".join('"%s"' % n for n, _, _ in TABLE),
         "pub const ARITY: [usize; 104] = [%s];" % ", ".join(str(len(k)) for _, _, k in TABLE),
         "/// operand kinds", "pub const KINDS: [&[&str]; 104] = [%s];" % ", ".join("&[%s]" % ", ".join('"%s"' % x for x in k) for _, _, k in TABLE),
         "/// in-memory size (StartProfiling: plus its text)",
         "pub const SIZE: [u32; 104] = [%s];" % ", ".join("0" if n == "Target" else "1 + " + " + ".join([memsz(x) for x in k] or ["0"]) for n, _, k in TABLE)]
    for lab in (False, True):
        o.append("pub fn make%s(op: u8, a: &[u64]) -> Instr<%s> {\n    match op {" % ("_label" if lab else "", "Label" if lab else "Offset"))
        for n, c, ops in TABLE:
            args = ", ".join(conv(k, i, lab) for i, k in enumerate(ops))
            o.append("        %d => Instr::%s%s," % (c, n, "(%s)" % args if ops else ""))
        o.append("        _ => unreachable!(),\n    }\n}")
    o.append("pub fn wire(op: u8, a: &[u64]) -> Vec<u8> {\n    let mut o = vec![op];\n    match op {")
    for n, c, ops in TABLE:
        w = " ".join(filter(None, (wire(k, i) for i, k in enumerate(ops))))
        if w:
            o.append("        %d => { %s }" % (c, w))
    o.append("        _ => {}\n    }\n    o\n}")
    # operands back out of an instruction: (opcode, operands)
    o.append("pub fn parts(i: &Instr<Offset>) -> (u8, Vec<u64>) {\n    match i {")
    for n, c, ops in TABLE:
        ns = ["x%d" % i for i in range(len(ops))]
        vs = []
        for k, x in zip(ops, ns):
            if k[:2] in ("P:", "S:"):
                vs.append("u32::from(*%s) as u64" % x)
            elif k[0] == "O" or k == "T":
                vs.append("%s.value as u16 as u64" % x)
            elif k in ("f32", "f64"):
                vs.append("%s.to_bits() as u64" % x)
            elif k in ("BP", "PROF"):
                vs.append("{ let _ = %s; 0 }" % x)
            else:
                vs.append("*%s as u64" % x)
        o.append("        Instr::%s%s => (%d, vec![%s])," % (n, "(%s)" % ", ".join(ns) if ops else "", c, ", ".join(vs)))
    o.append("    }\n}")
    with open(os.path.join(HERE, "..", "replay", "src", "gen.rs"), "w") as f:
        f.write("\n".join(o) + "\n")


main()
