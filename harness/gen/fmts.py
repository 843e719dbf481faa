#!/usr/bin/env python3
"""Writes src/fmts.rs: format strings must be literals, so every combination of
flags is spelled out. Width and precision are run-time arguments."""
import os
ALIGN = ["", "<", "^", ">", "*<", "*^", "*>", "é^"]
out = ["// Generated by gen/fmts.py.", "use std::fmt::{Debug, Display, Result, Write};", "",
       "/// Renders x under (debug variant, sign flag, #, 0, alignment variant) and, if they",
       "/// are given, a width and a precision. Alignments 2, 3, 4, 6 and 7 need the first only.",
       "#[allow(clippy::too_many_arguments)]",
       "pub fn render_to<T: Display + Debug>(o: &mut dyn Write, x: &T, dbg: u8, sgf: u8, alt: u8, zero: u8, align: u8, w: Option<usize>, p: Option<usize>) -> Result {",
       "    match (dbg, sgf, alt, zero, align, w, p) {"]
for pw, pp, aligns in [("Some(w)", "None", range(8)), ("None", "None", (0, 1, 5)), ("None", "Some(p)", (0, 1, 5)), ("Some(w)", "Some(p)", (0, 1, 5))]:
    for d, ty in enumerate(["", "x?", "X?"]):
        for s, sg in enumerate(["", "+", "-"]):
            for a, al in enumerate(["", "#"]):
                for z, ze in enumerate(["", "0"]):
                    for i in aligns:
                        spec = ALIGN[i] + sg + al + ze + ("w$" if pw != "None" else "") + (".p$" if pp != "None" else "") + ty
                        out.append(f'        ({d}, {s}, {a}, {z}, {i}, {pw}, {pp}) => write!(o, "{{x{":" + spec if spec else ""}}}"),')
out += ["        _ => unreachable!(),", "    }", "}"]
out += ["", "/// The same as a new string.", "#[allow(clippy::too_many_arguments)]",
        "pub fn render<T: Display + Debug>(x: &T, dbg: u8, sgf: u8, alt: u8, zero: u8, align: u8, w: Option<usize>, p: Option<usize>) -> String {",
        "    let mut s = String::new();",
        "    render_to(&mut s, x, dbg, sgf, alt, zero, align, w, p).unwrap();", "    s", "}"]
open(os.path.join(os.path.dirname(__file__), "..", "src", "fmts.rs"), "w").write("\n".join(out) + "\n")
