#!/usr/bin/env python3
"""Writes /verif/witness/func/lib.rs: functions of every kind the func attribute accepts, and uses of all their entry points."""
import os
S = "String"
# name, attribute, generics, [(argument, type)], return type
F = [
    ("none", "", "", [], None),
    ("none_unit", "", "", [], "()"),
    ("none_value", "", "", [], "u32"),
    ("one", "", "", [("a", S)], None),
    ("one_value", "", "", [("a", S)], S),
    ("two", "", "", [("a", S), ("b", S)], "(String, String)"),
    ("two_swapped_names", "", "", [("b", S), ("a", S)], "(String, String)"),
    ("two_unit", "", "", [("a", S), ("b", S)], None),
    ("three", "", "", [("a", "u32"), ("b", "u32"), ("c", "u32")], "u32"),
    ("four_types", "", "", [("a", "u32"), ("b", S), ("c", "u32"), ("d", S)], "Vec<String>"),
    ("five", "", "", [("a", "u32"), ("b", "u32"), ("c", S), ("d", S), ("e", "u32")], "Result<String, String>"),
    ("seven", "", "", [(x, "u8") for x in "abcdefg"], "[u8; 7]"),
    ("twelve", "", "", [("x%d" % i, "u32") for i in range(12)], "u64"),
    ("mutable", "", "", [("mut a", "Vec<u32>"), ("mut b", "Vec<u32>")], "Vec<u32>"),
    ("tuple", "", "", [("a", "(u32, String)"), ("b", "[u8; 4]")], "Option<(u32, String)>"),
    ("unit_arg", "", "", [("a", "()"), ("b", "()")], "((), ())"),
    ("channels", "", "", [("tx", "crossmist::Sender<u32>"), ("rx", "crossmist::Receiver<u32>")], "Result<(), String>"),
    ("gives_channel", "", "", [("n", "u32")], "crossmist::Sender<u32>"),
    ("nested_option", "", "", [("n", "u32")], "Option<Option<u32>>"),
    ("names", "", "", [("args", "u32"), ("entry", "u32"), ("body", "u32"), ("func", "u32"), ("return_value", "u32")], "u32"),
    ("generic", "", "<T: Object + 'static>", [("a", "T"), ("b", "T")], "T"),
    ("generic_two", "", "<T: Object + 'static, U: Object + 'static>", [("a", "U"), ("b", "T"), ("c", "U")], "U"),
    ("tokio_none", "(tokio)", "", [], None),
    ("tokio_value", "(tokio)", "", [], "u32"),
    ("tokio_two", "(tokio)", "", [("a", S), ("b", S)], "(String, String)"),
    ("tokio_unit", "(tokio)", "", [("a", S), ("b", S)], None),
    ("tokio_current", '(tokio(flavor = "current_thread"))', "", [("a", "u32"), ("b", "u32"), ("c", "u32")], "u32"),
    ("tokio_result", "(tokio)", "", [("a", "u32")], "Result<(), String>"),
    ("smol_none", "(smol)", "", [], None),
    ("smol_value", "(smol)", "", [], "u32"),
    ("smol_two", "(smol)", "", [("a", S), ("b", S)], "(String, String)"),
    ("smol_three", "(smol)", "", [("a", "u32"), ("b", "u32"), ("c", "u32")], "u32"),
    ("smol_unit", "(smol)", "", [("a", S), ("b", S)], None),
]
out = ["//! Functions of every kind the func attribute accepts, and uses of all their entry points (written by",
       "//! tools/gen_witness_func.py). Nothing here is run: what the attribute makes of them is analysed. The functions of `user`",
       "//! stand for the body the user writes.",
       "#![allow(dead_code, unused_variables, unused_mut, clippy::all)]",
       "use crossmist::{func, Object};", "use std::io::Result as IoResult;", "", "pub mod user {", "    use crossmist::Object;"]
for n, at, ge, args, r in F:
    a = ", ".join(f"{x.replace('mut ', '')}: {t}" for x, t in args)
    out.append(f"    #[inline(never)]\n    pub fn {n}{ge}({a}){' -> ' + r if r else ''} {{\n        panic!()\n    }}")
out.append("}\n")
for n, at, ge, args, r in F:
    a = ", ".join(f"{x}: {t}" for x, t in args)
    v = ", ".join(x.replace("mut ", "") for x, t in args)
    asy = "async " if at else ""
    out.append(f"#[func{at}]\npub {asy}fn {n}{ge}({a}){' -> ' + r if r else ''} {{\n    user::{n}({v})\n}}")
for n, at, ge, args, r in F:
    a = ", ".join(f"{x.replace('mut ', 'm_').replace('m_', '')}: {t}" for x, t in args)
    v = ", ".join(x.replace("mut ", "") for x, t in args)
    rt = r or "()"
    out.append(f"pub mod w_{n} {{\n    use super::*;")
    out.append(f"    pub fn spawn{ge}({a}) -> IoResult<crossmist::Child<{rt}>> {{\n        super::{n}.spawn({v})\n    }}")
    out.append(f"    pub fn run{ge}({a}) -> IoResult<{rt}> {{\n        super::{n}.run({v})\n    }}")
    for m in ("tokio", "smol"):
        out.append(f"    pub async fn spawn_{m}{ge}({a}) -> IoResult<crossmist::{m}::Child<{rt}>> {{\n        super::{n}.spawn_{m}({v}).await\n    }}")
        out.append(f"    pub async fn run_{m}{ge}({a}) -> IoResult<{rt}> {{\n        super::{n}.run_{m}({v}).await\n    }}")
    if not ge:
        tv = "(" + v + ("," if len(args) == 1 else "") + ")"
        aw = ".await" if at else ""
        # the call traits, on the object itself and boxed
        out.append(f"    pub {asy}fn call({a}) -> {rt} {{\n        crossmist::FnObject::call_object(&super::{n}, {tv}){aw}\n    }}")
        out.append(f"    pub {asy}fn call_mut({a}) -> {rt} {{\n        let mut called = super::{n};\n        crossmist::FnMutObject::call_object_mut(&mut called, {tv}){aw}\n    }}")
        out.append(f"    pub {asy}fn call_once({a}) -> {rt} {{\n        crossmist::FnOnceObject::call_object_once(super::{n}, {tv}){aw}\n    }}")
        out.append(f"    pub {asy}fn call_box({a}) -> {rt} {{\n        crossmist::FnOnceObject::call_object_box(Box::new(super::{n}), {tv}){aw}\n    }}")
    out.append("}")
out.append('''
/// Can be called, but not started: it takes references.
#[func]
pub fn refs(a: &u32, b: &mut u32, c: u32) -> u32 {
    c
}
pub fn outer() {
    #[func]
    fn inner(a: u32, b: u32) -> u32 {
        a
    }
    let _ = inner.spawn(1, 2);
}
pub struct Holder;
impl Holder {
    pub fn method(&self) {
        #[func]
        fn inner(a: String, b: u32) -> u32 {
            b
        }
        let _ = inner.spawn("".to_string(), 2);
    }
}''')
p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "witness", "func", "lib.rs")
open(p, "w").write("\n".join(out) + "\n")
