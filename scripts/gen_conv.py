#!/usr/bin/env python3
"""Generates harness/src/conv.rs: Node -> generic tree, from the node definitions of
lib-ruby-parser-ast (an external, pinned crate that is not part of the code under test)."""
import glob, os, re, sys
d = sorted(glob.glob(os.path.expanduser("~/.cargo/registry/src/*/lib-ruby-parser-ast-0.55.0/src/nodes/types")))[0]
out = ["// Generated by scripts/gen_conv.py. Do not edit.",
       "use crate::tree::{T, V};", "use lib_ruby_parser::{Loc, Node};", "",
       "fn l(x: &Loc) -> (usize, usize) { (x.begin, x.end) }", "",
       "pub fn conv(n: &Node) -> T {", "    match n {"]
for f in sorted(glob.glob(d + "/*.rs")):
    if os.path.basename(f) == "mod.rs": continue
    s = open(f).read()
    m = re.search(r"pub struct (\w+) \{(.*?)\n\}", s, re.S)
    name, body = m.group(1), m.group(2)
    fields = re.findall(r"pub (\w+): ([^,\n]+),", body)
    out.append(f"        Node::{name}(x) => {{")
    out.append("            #[allow(unused_mut)]")
    out.append(f"            let mut t = T::new(\"{name}\");")
    for fn, ty in fields:
        ty = ty.strip()
        if ty == "Loc": out.append(f"            t.put(\"{fn}\", V::Loc(l(&x.{fn})));")
        elif ty == "Option<Loc>": out.append(f"            if let Some(v) = &x.{fn} {{ t.put(\"{fn}\", V::Loc(l(v))); }}")
        elif ty == "String": out.append(f"            t.put(\"{fn}\", V::Str(x.{fn}.as_bytes().to_vec()));")
        elif ty == "Option<String>": out.append(f"            if let Some(v) = &x.{fn} {{ t.put(\"{fn}\", V::Str(v.as_bytes().to_vec())); }}")
        elif ty == "Bytes": out.append(f"            t.put(\"{fn}\", V::Str(x.{fn}.as_raw().to_vec()));")
        elif ty == "Box<Node>": out.append(f"            t.put(\"{fn}\", V::Node(Box::new(conv(&x.{fn}))));")
        elif ty == "Option<Box<Node>>": out.append(f"            if let Some(v) = &x.{fn} {{ t.put(\"{fn}\", V::Node(Box::new(conv(v)))); }}")
        elif ty == "Vec<Node>": out.append(f"            if !x.{fn}.is_empty() {{ t.put(\"{fn}\", V::List(x.{fn}.iter().map(conv).collect())); }}")
        elif ty == "u8": out.append(f"            t.put(\"{fn}\", V::Num(x.{fn} as u64));")
        else: sys.exit(f"unknown type {ty} in {f}")
    out.append("            t")
    out.append("        }")
out += ["    }", "}", ""]
open(os.path.join(os.path.dirname(__file__), "../harness/src/conv.rs"), "w").write("\n".join(out))
