#!/usr/bin/env python3
"""Writes free/src/all.rs, which calls every accessor listed in
mon/src/types.rs on every structure listed in mon/src/model.rs."""
import os, re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
t = open(os.path.join(here, "mon/src/types.rs")).read()
accs, types = {}, {}
for name, ty, body in re.findall(r"^accs! \{ (\w+): (rc::[\w<>]+);(.*?)^\}", t, re.S | re.M):
    names = []
    # inside each group: entries separated by commas; the name comes first
    for group in re.findall(r"\b(?:bits|amdbits)\b[^{]*\{([^}]*)\}", body):
        names += re.findall(r"\b([a-z]\w*) \d+", group)
    for group in re.findall(r"\bnums \{([^}]*)\}", body):
        names += re.findall(r"\b([a-z]\w*) \d+ R", group)
    names += re.findall(r'^\s+([a-z]\w*) "[^"]*" \|', body, re.M)
    accs[name] = names
    types[name] = ty
m = open(os.path.join(here, "mon/src/model.rs")).read()
out = ["//! Written by tools/mkall.py: every accessor of every structure.", "#![allow(deprecated)]", "use core::fmt::Write;", "use raw_cpuid::{self as rc, CpuId, CpuIdReader};", ""]
for name, names in accs.items():
    g = "<R: CpuIdReader>" if "<R>" in types[name] else ""
    out.append("fn %s%s(o: &%s, f: &mut impl Write) {" % (name, g, types[name]))
    for n in names:
        # the one number that a narrow host cannot always hold
        e = "(o.sets() as u64).min(0xffff_ffff)" if n == "sets" else "o.%s()" % n
        out.append('    let _ = write!(f, "%s={:?},", %s);' % (n, e))
    out.append("}")
out += ["", "pub fn all<R: CpuIdReader + 'static>(c: &CpuId<R>, f: &mut impl Write) {"]
seen = set()
for acc, getter in re.findall(r'path!\(v, "[^"]*", .*?, (\w+), \|c\| (.*)\);\n', m):
    if getter in seen:
        continue
    seen.add(getter)
    if "xs_item" in getter:
        getter = re.sub(r"xs_item::<R, (\d+)>\(c\)", r"c.get_extended_state_info().and_then(|x| x.iter().find(|x| x.subleaf == \1))", getter)
        out.append("    if let Some(o) = %s {" % getter)
    else:
        out.append("    if let Some(o) = (|| -> Option<%s> { %s })() {" % (types[acc], "Some(%s?)" % getter if not getter.startswith("match") else getter))
    out.append('        let _ = write!(f, "%s:");' % acc)
    out.append("        %s(&o, f);" % acc)
    out.append("    }")
ITEMS = [("cache_parameter", "c.get_cache_parameters()"), ("extended_topology_level", "c.get_extended_topology_info()"), ("extended_topology_level", "c.get_extended_topology_info_v2()"),
         ("extended_state", "c.get_extended_state_info().map(|x| x.iter())"), ("dat_info", "c.get_deterministic_address_translation_info()"), ("extended_cpu_topology_level", "c.get_extended_cpu_topology()")]
for acc, getter in ITEMS:
    out += ["    for o in %s.into_iter().flatten().take(600) {" % getter, "        %s(&o, f);" % acc, "    }"]
out += ["    for rc::SgxSectionInfo::Epc(o) in c.get_sgx_info().map(|x| x.iter()).into_iter().flatten().take(600) {", "        epc_section(&o, f);", "    }"]
out += ["    for o in c.get_cache_info().into_iter().flatten() {", '        let _ = write!(f, "{:02x}{}", o.num, o.desc());', "    }"]
out += ["    for o in c.get_soc_vendor_info().and_then(|x| x.get_vendor_attributes()).into_iter().flatten().take(600) {", '        let _ = write!(f, "{:x}.{:x}.{:x}.{:x},", o.eax, o.ebx, o.ecx, o.edx);', "    }"]
out.append("}")
open(os.path.join(here, "free/src/all.rs"), "w").write("\n".join(out) + "\n")
