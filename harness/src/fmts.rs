// Generated by gen/fmts.py.
use std::fmt::{Debug, Display, Result, Write};

/// Renders x under (debug variant, sign flag, #, 0, alignment variant) and, if they
/// are given, a width and a precision. Alignments 2, 3, 4, 6 and 7 need the first only.
#[allow(clippy::too_many_arguments)]
pub fn render_to<T: Display + Debug>(o: &mut dyn Write, x: &T, dbg: u8, sgf: u8, alt: u8, zero: u8, align: u8, w: Option<usize>, p: Option<usize>) -> Result {
    match (dbg, sgf, alt, zero, align, w, p) {
        (0, 0, 0, 0, 0, Some(w), None) => write!(o, "{x:w$}"),
        (0, 0, 0, 0, 1, Some(w), None) => write!(o, "{x:<w$}"),
        (0, 0, 0, 0, 2, Some(w), None) => write!(o, "{x:^w$}"),
        (0, 0, 0, 0, 3, Some(w), None) => write!(o, "{x:>w$}"),
        (0, 0, 0, 0, 4, Some(w), None) => write!(o, "{x:*<w$}"),
        (0, 0, 0, 0, 5, Some(w), None) => write!(o, "{x:*^w$}"),
        (0, 0, 0, 0, 6, Some(w), None) => write!(o, "{x:*>w$}"),
        (0, 0, 0, 0, 7, Some(w), None) => write!(o, "{x:é^w$}"),
        (0, 0, 0, 1, 0, Some(w), None) => write!(o, "{x:0w$}"),
        (0, 0, 0, 1, 1, Some(w), None) => write!(o, "{x:<0w$}"),
        (0, 0, 0, 1, 2, Some(w), None) => write!(o, "{x:^0w$}"),
        (0, 0, 0, 1, 3, Some(w), None) => write!(o, "{x:>0w$}"),
        (0, 0, 0, 1, 4, Some(w), None) => write!(o, "{x:*<0w$}"),
        (0, 0, 0, 1, 5, Some(w), None) => write!(o, "{x:*^0w$}"),
        (0, 0, 0, 1, 6, Some(w), None) => write!(o, "{x:*>0w$}"),
        (0, 0, 0, 1, 7, Some(w), None) => write!(o, "{x:é^0w$}"),
        (0, 0, 1, 0, 0, Some(w), None) => write!(o, "{x:#w$}"),
        (0, 0, 1, 0, 1, Some(w), None) => write!(o, "{x:<#w$}"),
        (0, 0, 1, 0, 2, Some(w), None) => write!(o, "{x:^#w$}"),
        (0, 0, 1, 0, 3, Some(w), None) => write!(o, "{x:>#w$}"),
        (0, 0, 1, 0, 4, Some(w), None) => write!(o, "{x:*<#w$}"),
        (0, 0, 1, 0, 5, Some(w), None) => write!(o, "{x:*^#w$}"),
        (0, 0, 1, 0, 6, Some(w), None) => write!(o, "{x:*>#w$}"),
        (0, 0, 1, 0, 7, Some(w), None) => write!(o, "{x:é^#w$}"),
        (0, 0, 1, 1, 0, Some(w), None) => write!(o, "{x:#0w$}"),
        (0, 0, 1, 1, 1, Some(w), None) => write!(o, "{x:<#0w$}"),
        (0, 0, 1, 1, 2, Some(w), None) => write!(o, "{x:^#0w$}"),
        (0, 0, 1, 1, 3, Some(w), None) => write!(o, "{x:>#0w$}"),
        (0, 0, 1, 1, 4, Some(w), None) => write!(o, "{x:*<#0w$}"),
        (0, 0, 1, 1, 5, Some(w), None) => write!(o, "{x:*^#0w$}"),
        (0, 0, 1, 1, 6, Some(w), None) => write!(o, "{x:*>#0w$}"),
        (0, 0, 1, 1, 7, Some(w), None) => write!(o, "{x:é^#0w$}"),
        (0, 1, 0, 0, 0, Some(w), None) => write!(o, "{x:+w$}"),
        (0, 1, 0, 0, 1, Some(w), None) => write!(o, "{x:<+w$}"),
        (0, 1, 0, 0, 2, Some(w), None) => write!(o, "{x:^+w$}"),
        (0, 1, 0, 0, 3, Some(w), None) => write!(o, "{x:>+w$}"),
        (0, 1, 0, 0, 4, Some(w), None) => write!(o, "{x:*<+w$}"),
        (0, 1, 0, 0, 5, Some(w), None) => write!(o, "{x:*^+w$}"),
        (0, 1, 0, 0, 6, Some(w), None) => write!(o, "{x:*>+w$}"),
        (0, 1, 0, 0, 7, Some(w), None) => write!(o, "{x:é^+w$}"),
        (0, 1, 0, 1, 0, Some(w), None) => write!(o, "{x:+0w$}"),
        (0, 1, 0, 1, 1, Some(w), None) => write!(o, "{x:<+0w$}"),
        (0, 1, 0, 1, 2, Some(w), None) => write!(o, "{x:^+0w$}"),
        (0, 1, 0, 1, 3, Some(w), None) => write!(o, "{x:>+0w$}"),
        (0, 1, 0, 1, 4, Some(w), None) => write!(o, "{x:*<+0w$}"),
        (0, 1, 0, 1, 5, Some(w), None) => write!(o, "{x:*^+0w$}"),
        (0, 1, 0, 1, 6, Some(w), None) => write!(o, "{x:*>+0w$}"),
        (0, 1, 0, 1, 7, Some(w), None) => write!(o, "{x:é^+0w$}"),
        (0, 1, 1, 0, 0, Some(w), None) => write!(o, "{x:+#w$}"),
        (0, 1, 1, 0, 1, Some(w), None) => write!(o, "{x:<+#w$}"),
        (0, 1, 1, 0, 2, Some(w), None) => write!(o, "{x:^+#w$}"),
        (0, 1, 1, 0, 3, Some(w), None) => write!(o, "{x:>+#w$}"),
        (0, 1, 1, 0, 4, Some(w), None) => write!(o, "{x:*<+#w$}"),
        (0, 1, 1, 0, 5, Some(w), None) => write!(o, "{x:*^+#w$}"),
        (0, 1, 1, 0, 6, Some(w), None) => write!(o, "{x:*>+#w$}"),
        (0, 1, 1, 0, 7, Some(w), None) => write!(o, "{x:é^+#w$}"),
        (0, 1, 1, 1, 0, Some(w), None) => write!(o, "{x:+#0w$}"),
        (0, 1, 1, 1, 1, Some(w), None) => write!(o, "{x:<+#0w$}"),
        (0, 1, 1, 1, 2, Some(w), None) => write!(o, "{x:^+#0w$}"),
        (0, 1, 1, 1, 3, Some(w), None) => write!(o, "{x:>+#0w$}"),
        (0, 1, 1, 1, 4, Some(w), None) => write!(o, "{x:*<+#0w$}"),
        (0, 1, 1, 1, 5, Some(w), None) => write!(o, "{x:*^+#0w$}"),
        (0, 1, 1, 1, 6, Some(w), None) => write!(o, "{x:*>+#0w$}"),
        (0, 1, 1, 1, 7, Some(w), None) => write!(o, "{x:é^+#0w$}"),
        (0, 2, 0, 0, 0, Some(w), None) => write!(o, "{x:-w$}"),
        (0, 2, 0, 0, 1, Some(w), None) => write!(o, "{x:<-w$}"),
        (0, 2, 0, 0, 2, Some(w), None) => write!(o, "{x:^-w$}"),
        (0, 2, 0, 0, 3, Some(w), None) => write!(o, "{x:>-w$}"),
        (0, 2, 0, 0, 4, Some(w), None) => write!(o, "{x:*<-w$}"),
        (0, 2, 0, 0, 5, Some(w), None) => write!(o, "{x:*^-w$}"),
        (0, 2, 0, 0, 6, Some(w), None) => write!(o, "{x:*>-w$}"),
        (0, 2, 0, 0, 7, Some(w), None) => write!(o, "{x:é^-w$}"),
        (0, 2, 0, 1, 0, Some(w), None) => write!(o, "{x:-0w$}"),
        (0, 2, 0, 1, 1, Some(w), None) => write!(o, "{x:<-0w$}"),
        (0, 2, 0, 1, 2, Some(w), None) => write!(o, "{x:^-0w$}"),
        (0, 2, 0, 1, 3, Some(w), None) => write!(o, "{x:>-0w$}"),
        (0, 2, 0, 1, 4, Some(w), None) => write!(o, "{x:*<-0w$}"),
        (0, 2, 0, 1, 5, Some(w), None) => write!(o, "{x:*^-0w$}"),
        (0, 2, 0, 1, 6, Some(w), None) => write!(o, "{x:*>-0w$}"),
        (0, 2, 0, 1, 7, Some(w), None) => write!(o, "{x:é^-0w$}"),
        (0, 2, 1, 0, 0, Some(w), None) => write!(o, "{x:-#w$}"),
        (0, 2, 1, 0, 1, Some(w), None) => write!(o, "{x:<-#w$}"),
        (0, 2, 1, 0, 2, Some(w), None) => write!(o, "{x:^-#w$}"),
        (0, 2, 1, 0, 3, Some(w), None) => write!(o, "{x:>-#w$}"),
        (0, 2, 1, 0, 4, Some(w), None) => write!(o, "{x:*<-#w$}"),
        (0, 2, 1, 0, 5, Some(w), None) => write!(o, "{x:*^-#w$}"),
        (0, 2, 1, 0, 6, Some(w), None) => write!(o, "{x:*>-#w$}"),
        (0, 2, 1, 0, 7, Some(w), None) => write!(o, "{x:é^-#w$}"),
        (0, 2, 1, 1, 0, Some(w), None) => write!(o, "{x:-#0w$}"),
        (0, 2, 1, 1, 1, Some(w), None) => write!(o, "{x:<-#0w$}"),
        (0, 2, 1, 1, 2, Some(w), None) => write!(o, "{x:^-#0w$}"),
        (0, 2, 1, 1, 3, Some(w), None) => write!(o, "{x:>-#0w$}"),
        (0, 2, 1, 1, 4, Some(w), None) => write!(o, "{x:*<-#0w$}"),
        (0, 2, 1, 1, 5, Some(w), None) => write!(o, "{x:*^-#0w$}"),
        (0, 2, 1, 1, 6, Some(w), None) => write!(o, "{x:*>-#0w$}"),
        (0, 2, 1, 1, 7, Some(w), None) => write!(o, "{x:é^-#0w$}"),
        (1, 0, 0, 0, 0, Some(w), None) => write!(o, "{x:w$x?}"),
        (1, 0, 0, 0, 1, Some(w), None) => write!(o, "{x:<w$x?}"),
        (1, 0, 0, 0, 2, Some(w), None) => write!(o, "{x:^w$x?}"),
        (1, 0, 0, 0, 3, Some(w), None) => write!(o, "{x:>w$x?}"),
        (1, 0, 0, 0, 4, Some(w), None) => write!(o, "{x:*<w$x?}"),
        (1, 0, 0, 0, 5, Some(w), None) => write!(o, "{x:*^w$x?}"),
        (1, 0, 0, 0, 6, Some(w), None) => write!(o, "{x:*>w$x?}"),
        (1, 0, 0, 0, 7, Some(w), None) => write!(o, "{x:é^w$x?}"),
        (1, 0, 0, 1, 0, Some(w), None) => write!(o, "{x:0w$x?}"),
        (1, 0, 0, 1, 1, Some(w), None) => write!(o, "{x:<0w$x?}"),
        (1, 0, 0, 1, 2, Some(w), None) => write!(o, "{x:^0w$x?}"),
        (1, 0, 0, 1, 3, Some(w), None) => write!(o, "{x:>0w$x?}"),
        (1, 0, 0, 1, 4, Some(w), None) => write!(o, "{x:*<0w$x?}"),
        (1, 0, 0, 1, 5, Some(w), None) => write!(o, "{x:*^0w$x?}"),
        (1, 0, 0, 1, 6, Some(w), None) => write!(o, "{x:*>0w$x?}"),
        (1, 0, 0, 1, 7, Some(w), None) => write!(o, "{x:é^0w$x?}"),
        (1, 0, 1, 0, 0, Some(w), None) => write!(o, "{x:#w$x?}"),
        (1, 0, 1, 0, 1, Some(w), None) => write!(o, "{x:<#w$x?}"),
        (1, 0, 1, 0, 2, Some(w), None) => write!(o, "{x:^#w$x?}"),
        (1, 0, 1, 0, 3, Some(w), None) => write!(o, "{x:>#w$x?}"),
        (1, 0, 1, 0, 4, Some(w), None) => write!(o, "{x:*<#w$x?}"),
        (1, 0, 1, 0, 5, Some(w), None) => write!(o, "{x:*^#w$x?}"),
        (1, 0, 1, 0, 6, Some(w), None) => write!(o, "{x:*>#w$x?}"),
        (1, 0, 1, 0, 7, Some(w), None) => write!(o, "{x:é^#w$x?}"),
        (1, 0, 1, 1, 0, Some(w), None) => write!(o, "{x:#0w$x?}"),
        (1, 0, 1, 1, 1, Some(w), None) => write!(o, "{x:<#0w$x?}"),
        (1, 0, 1, 1, 2, Some(w), None) => write!(o, "{x:^#0w$x?}"),
        (1, 0, 1, 1, 3, Some(w), None) => write!(o, "{x:>#0w$x?}"),
        (1, 0, 1, 1, 4, Some(w), None) => write!(o, "{x:*<#0w$x?}"),
        (1, 0, 1, 1, 5, Some(w), None) => write!(o, "{x:*^#0w$x?}"),
        (1, 0, 1, 1, 6, Some(w), None) => write!(o, "{x:*>#0w$x?}"),
        (1, 0, 1, 1, 7, Some(w), None) => write!(o, "{x:é^#0w$x?}"),
        (1, 1, 0, 0, 0, Some(w), None) => write!(o, "{x:+w$x?}"),
        (1, 1, 0, 0, 1, Some(w), None) => write!(o, "{x:<+w$x?}"),
        (1, 1, 0, 0, 2, Some(w), None) => write!(o, "{x:^+w$x?}"),
        (1, 1, 0, 0, 3, Some(w), None) => write!(o, "{x:>+w$x?}"),
        (1, 1, 0, 0, 4, Some(w), None) => write!(o, "{x:*<+w$x?}"),
        (1, 1, 0, 0, 5, Some(w), None) => write!(o, "{x:*^+w$x?}"),
        (1, 1, 0, 0, 6, Some(w), None) => write!(o, "{x:*>+w$x?}"),
        (1, 1, 0, 0, 7, Some(w), None) => write!(o, "{x:é^+w$x?}"),
        (1, 1, 0, 1, 0, Some(w), None) => write!(o, "{x:+0w$x?}"),
        (1, 1, 0, 1, 1, Some(w), None) => write!(o, "{x:<+0w$x?}"),
        (1, 1, 0, 1, 2, Some(w), None) => write!(o, "{x:^+0w$x?}"),
        (1, 1, 0, 1, 3, Some(w), None) => write!(o, "{x:>+0w$x?}"),
        (1, 1, 0, 1, 4, Some(w), None) => write!(o, "{x:*<+0w$x?}"),
        (1, 1, 0, 1, 5, Some(w), None) => write!(o, "{x:*^+0w$x?}"),
        (1, 1, 0, 1, 6, Some(w), None) => write!(o, "{x:*>+0w$x?}"),
        (1, 1, 0, 1, 7, Some(w), None) => write!(o, "{x:é^+0w$x?}"),
        (1, 1, 1, 0, 0, Some(w), None) => write!(o, "{x:+#w$x?}"),
        (1, 1, 1, 0, 1, Some(w), None) => write!(o, "{x:<+#w$x?}"),
        (1, 1, 1, 0, 2, Some(w), None) => write!(o, "{x:^+#w$x?}"),
        (1, 1, 1, 0, 3, Some(w), None) => write!(o, "{x:>+#w$x?}"),
        (1, 1, 1, 0, 4, Some(w), None) => write!(o, "{x:*<+#w$x?}"),
        (1, 1, 1, 0, 5, Some(w), None) => write!(o, "{x:*^+#w$x?}"),
        (1, 1, 1, 0, 6, Some(w), None) => write!(o, "{x:*>+#w$x?}"),
        (1, 1, 1, 0, 7, Some(w), None) => write!(o, "{x:é^+#w$x?}"),
        (1, 1, 1, 1, 0, Some(w), None) => write!(o, "{x:+#0w$x?}"),
        (1, 1, 1, 1, 1, Some(w), None) => write!(o, "{x:<+#0w$x?}"),
        (1, 1, 1, 1, 2, Some(w), None) => write!(o, "{x:^+#0w$x?}"),
        (1, 1, 1, 1, 3, Some(w), None) => write!(o, "{x:>+#0w$x?}"),
        (1, 1, 1, 1, 4, Some(w), None) => write!(o, "{x:*<+#0w$x?}"),
        (1, 1, 1, 1, 5, Some(w), None) => write!(o, "{x:*^+#0w$x?}"),
        (1, 1, 1, 1, 6, Some(w), None) => write!(o, "{x:*>+#0w$x?}"),
        (1, 1, 1, 1, 7, Some(w), None) => write!(o, "{x:é^+#0w$x?}"),
        (1, 2, 0, 0, 0, Some(w), None) => write!(o, "{x:-w$x?}"),
        (1, 2, 0, 0, 1, Some(w), None) => write!(o, "{x:<-w$x?}"),
        (1, 2, 0, 0, 2, Some(w), None) => write!(o, "{x:^-w$x?}"),
        (1, 2, 0, 0, 3, Some(w), None) => write!(o, "{x:>-w$x?}"),
        (1, 2, 0, 0, 4, Some(w), None) => write!(o, "{x:*<-w$x?}"),
        (1, 2, 0, 0, 5, Some(w), None) => write!(o, "{x:*^-w$x?}"),
        (1, 2, 0, 0, 6, Some(w), None) => write!(o, "{x:*>-w$x?}"),
        (1, 2, 0, 0, 7, Some(w), None) => write!(o, "{x:é^-w$x?}"),
        (1, 2, 0, 1, 0, Some(w), None) => write!(o, "{x:-0w$x?}"),
        (1, 2, 0, 1, 1, Some(w), None) => write!(o, "{x:<-0w$x?}"),
        (1, 2, 0, 1, 2, Some(w), None) => write!(o, "{x:^-0w$x?}"),
        (1, 2, 0, 1, 3, Some(w), None) => write!(o, "{x:>-0w$x?}"),
        (1, 2, 0, 1, 4, Some(w), None) => write!(o, "{x:*<-0w$x?}"),
        (1, 2, 0, 1, 5, Some(w), None) => write!(o, "{x:*^-0w$x?}"),
        (1, 2, 0, 1, 6, Some(w), None) => write!(o, "{x:*>-0w$x?}"),
        (1, 2, 0, 1, 7, Some(w), None) => write!(o, "{x:é^-0w$x?}"),
        (1, 2, 1, 0, 0, Some(w), None) => write!(o, "{x:-#w$x?}"),
        (1, 2, 1, 0, 1, Some(w), None) => write!(o, "{x:<-#w$x?}"),
        (1, 2, 1, 0, 2, Some(w), None) => write!(o, "{x:^-#w$x?}"),
        (1, 2, 1, 0, 3, Some(w), None) => write!(o, "{x:>-#w$x?}"),
        (1, 2, 1, 0, 4, Some(w), None) => write!(o, "{x:*<-#w$x?}"),
        (1, 2, 1, 0, 5, Some(w), None) => write!(o, "{x:*^-#w$x?}"),
        (1, 2, 1, 0, 6, Some(w), None) => write!(o, "{x:*>-#w$x?}"),
        (1, 2, 1, 0, 7, Some(w), None) => write!(o, "{x:é^-#w$x?}"),
        (1, 2, 1, 1, 0, Some(w), None) => write!(o, "{x:-#0w$x?}"),
        (1, 2, 1, 1, 1, Some(w), None) => write!(o, "{x:<-#0w$x?}"),
        (1, 2, 1, 1, 2, Some(w), None) => write!(o, "{x:^-#0w$x?}"),
        (1, 2, 1, 1, 3, Some(w), None) => write!(o, "{x:>-#0w$x?}"),
        (1, 2, 1, 1, 4, Some(w), None) => write!(o, "{x:*<-#0w$x?}"),
        (1, 2, 1, 1, 5, Some(w), None) => write!(o, "{x:*^-#0w$x?}"),
        (1, 2, 1, 1, 6, Some(w), None) => write!(o, "{x:*>-#0w$x?}"),
        (1, 2, 1, 1, 7, Some(w), None) => write!(o, "{x:é^-#0w$x?}"),
        (2, 0, 0, 0, 0, Some(w), None) => write!(o, "{x:w$X?}"),
        (2, 0, 0, 0, 1, Some(w), None) => write!(o, "{x:<w$X?}"),
        (2, 0, 0, 0, 2, Some(w), None) => write!(o, "{x:^w$X?}"),
        (2, 0, 0, 0, 3, Some(w), None) => write!(o, "{x:>w$X?}"),
        (2, 0, 0, 0, 4, Some(w), None) => write!(o, "{x:*<w$X?}"),
        (2, 0, 0, 0, 5, Some(w), None) => write!(o, "{x:*^w$X?}"),
        (2, 0, 0, 0, 6, Some(w), None) => write!(o, "{x:*>w$X?}"),
        (2, 0, 0, 0, 7, Some(w), None) => write!(o, "{x:é^w$X?}"),
        (2, 0, 0, 1, 0, Some(w), None) => write!(o, "{x:0w$X?}"),
        (2, 0, 0, 1, 1, Some(w), None) => write!(o, "{x:<0w$X?}"),
        (2, 0, 0, 1, 2, Some(w), None) => write!(o, "{x:^0w$X?}"),
        (2, 0, 0, 1, 3, Some(w), None) => write!(o, "{x:>0w$X?}"),
        (2, 0, 0, 1, 4, Some(w), None) => write!(o, "{x:*<0w$X?}"),
        (2, 0, 0, 1, 5, Some(w), None) => write!(o, "{x:*^0w$X?}"),
        (2, 0, 0, 1, 6, Some(w), None) => write!(o, "{x:*>0w$X?}"),
        (2, 0, 0, 1, 7, Some(w), None) => write!(o, "{x:é^0w$X?}"),
        (2, 0, 1, 0, 0, Some(w), None) => write!(o, "{x:#w$X?}"),
        (2, 0, 1, 0, 1, Some(w), None) => write!(o, "{x:<#w$X?}"),
        (2, 0, 1, 0, 2, Some(w), None) => write!(o, "{x:^#w$X?}"),
        (2, 0, 1, 0, 3, Some(w), None) => write!(o, "{x:>#w$X?}"),
        (2, 0, 1, 0, 4, Some(w), None) => write!(o, "{x:*<#w$X?}"),
        (2, 0, 1, 0, 5, Some(w), None) => write!(o, "{x:*^#w$X?}"),
        (2, 0, 1, 0, 6, Some(w), None) => write!(o, "{x:*>#w$X?}"),
        (2, 0, 1, 0, 7, Some(w), None) => write!(o, "{x:é^#w$X?}"),
        (2, 0, 1, 1, 0, Some(w), None) => write!(o, "{x:#0w$X?}"),
        (2, 0, 1, 1, 1, Some(w), None) => write!(o, "{x:<#0w$X?}"),
        (2, 0, 1, 1, 2, Some(w), None) => write!(o, "{x:^#0w$X?}"),
        (2, 0, 1, 1, 3, Some(w), None) => write!(o, "{x:>#0w$X?}"),
        (2, 0, 1, 1, 4, Some(w), None) => write!(o, "{x:*<#0w$X?}"),
        (2, 0, 1, 1, 5, Some(w), None) => write!(o, "{x:*^#0w$X?}"),
        (2, 0, 1, 1, 6, Some(w), None) => write!(o, "{x:*>#0w$X?}"),
        (2, 0, 1, 1, 7, Some(w), None) => write!(o, "{x:é^#0w$X?}"),
        (2, 1, 0, 0, 0, Some(w), None) => write!(o, "{x:+w$X?}"),
        (2, 1, 0, 0, 1, Some(w), None) => write!(o, "{x:<+w$X?}"),
        (2, 1, 0, 0, 2, Some(w), None) => write!(o, "{x:^+w$X?}"),
        (2, 1, 0, 0, 3, Some(w), None) => write!(o, "{x:>+w$X?}"),
        (2, 1, 0, 0, 4, Some(w), None) => write!(o, "{x:*<+w$X?}"),
        (2, 1, 0, 0, 5, Some(w), None) => write!(o, "{x:*^+w$X?}"),
        (2, 1, 0, 0, 6, Some(w), None) => write!(o, "{x:*>+w$X?}"),
        (2, 1, 0, 0, 7, Some(w), None) => write!(o, "{x:é^+w$X?}"),
        (2, 1, 0, 1, 0, Some(w), None) => write!(o, "{x:+0w$X?}"),
        (2, 1, 0, 1, 1, Some(w), None) => write!(o, "{x:<+0w$X?}"),
        (2, 1, 0, 1, 2, Some(w), None) => write!(o, "{x:^+0w$X?}"),
        (2, 1, 0, 1, 3, Some(w), None) => write!(o, "{x:>+0w$X?}"),
        (2, 1, 0, 1, 4, Some(w), None) => write!(o, "{x:*<+0w$X?}"),
        (2, 1, 0, 1, 5, Some(w), None) => write!(o, "{x:*^+0w$X?}"),
        (2, 1, 0, 1, 6, Some(w), None) => write!(o, "{x:*>+0w$X?}"),
        (2, 1, 0, 1, 7, Some(w), None) => write!(o, "{x:é^+0w$X?}"),
        (2, 1, 1, 0, 0, Some(w), None) => write!(o, "{x:+#w$X?}"),
        (2, 1, 1, 0, 1, Some(w), None) => write!(o, "{x:<+#w$X?}"),
        (2, 1, 1, 0, 2, Some(w), None) => write!(o, "{x:^+#w$X?}"),
        (2, 1, 1, 0, 3, Some(w), None) => write!(o, "{x:>+#w$X?}"),
        (2, 1, 1, 0, 4, Some(w), None) => write!(o, "{x:*<+#w$X?}"),
        (2, 1, 1, 0, 5, Some(w), None) => write!(o, "{x:*^+#w$X?}"),
        (2, 1, 1, 0, 6, Some(w), None) => write!(o, "{x:*>+#w$X?}"),
        (2, 1, 1, 0, 7, Some(w), None) => write!(o, "{x:é^+#w$X?}"),
        (2, 1, 1, 1, 0, Some(w), None) => write!(o, "{x:+#0w$X?}"),
        (2, 1, 1, 1, 1, Some(w), None) => write!(o, "{x:<+#0w$X?}"),
        (2, 1, 1, 1, 2, Some(w), None) => write!(o, "{x:^+#0w$X?}"),
        (2, 1, 1, 1, 3, Some(w), None) => write!(o, "{x:>+#0w$X?}"),
        (2, 1, 1, 1, 4, Some(w), None) => write!(o, "{x:*<+#0w$X?}"),
        (2, 1, 1, 1, 5, Some(w), None) => write!(o, "{x:*^+#0w$X?}"),
        (2, 1, 1, 1, 6, Some(w), None) => write!(o, "{x:*>+#0w$X?}"),
        (2, 1, 1, 1, 7, Some(w), None) => write!(o, "{x:é^+#0w$X?}"),
        (2, 2, 0, 0, 0, Some(w), None) => write!(o, "{x:-w$X?}"),
        (2, 2, 0, 0, 1, Some(w), None) => write!(o, "{x:<-w$X?}"),
        (2, 2, 0, 0, 2, Some(w), None) => write!(o, "{x:^-w$X?}"),
        (2, 2, 0, 0, 3, Some(w), None) => write!(o, "{x:>-w$X?}"),
        (2, 2, 0, 0, 4, Some(w), None) => write!(o, "{x:*<-w$X?}"),
        (2, 2, 0, 0, 5, Some(w), None) => write!(o, "{x:*^-w$X?}"),
        (2, 2, 0, 0, 6, Some(w), None) => write!(o, "{x:*>-w$X?}"),
        (2, 2, 0, 0, 7, Some(w), None) => write!(o, "{x:é^-w$X?}"),
        (2, 2, 0, 1, 0, Some(w), None) => write!(o, "{x:-0w$X?}"),
        (2, 2, 0, 1, 1, Some(w), None) => write!(o, "{x:<-0w$X?}"),
        (2, 2, 0, 1, 2, Some(w), None) => write!(o, "{x:^-0w$X?}"),
        (2, 2, 0, 1, 3, Some(w), None) => write!(o, "{x:>-0w$X?}"),
        (2, 2, 0, 1, 4, Some(w), None) => write!(o, "{x:*<-0w$X?}"),
        (2, 2, 0, 1, 5, Some(w), None) => write!(o, "{x:*^-0w$X?}"),
        (2, 2, 0, 1, 6, Some(w), None) => write!(o, "{x:*>-0w$X?}"),
        (2, 2, 0, 1, 7, Some(w), None) => write!(o, "{x:é^-0w$X?}"),
        (2, 2, 1, 0, 0, Some(w), None) => write!(o, "{x:-#w$X?}"),
        (2, 2, 1, 0, 1, Some(w), None) => write!(o, "{x:<-#w$X?}"),
        (2, 2, 1, 0, 2, Some(w), None) => write!(o, "{x:^-#w$X?}"),
        (2, 2, 1, 0, 3, Some(w), None) => write!(o, "{x:>-#w$X?}"),
        (2, 2, 1, 0, 4, Some(w), None) => write!(o, "{x:*<-#w$X?}"),
        (2, 2, 1, 0, 5, Some(w), None) => write!(o, "{x:*^-#w$X?}"),
        (2, 2, 1, 0, 6, Some(w), None) => write!(o, "{x:*>-#w$X?}"),
        (2, 2, 1, 0, 7, Some(w), None) => write!(o, "{x:é^-#w$X?}"),
        (2, 2, 1, 1, 0, Some(w), None) => write!(o, "{x:-#0w$X?}"),
        (2, 2, 1, 1, 1, Some(w), None) => write!(o, "{x:<-#0w$X?}"),
        (2, 2, 1, 1, 2, Some(w), None) => write!(o, "{x:^-#0w$X?}"),
        (2, 2, 1, 1, 3, Some(w), None) => write!(o, "{x:>-#0w$X?}"),
        (2, 2, 1, 1, 4, Some(w), None) => write!(o, "{x:*<-#0w$X?}"),
        (2, 2, 1, 1, 5, Some(w), None) => write!(o, "{x:*^-#0w$X?}"),
        (2, 2, 1, 1, 6, Some(w), None) => write!(o, "{x:*>-#0w$X?}"),
        (2, 2, 1, 1, 7, Some(w), None) => write!(o, "{x:é^-#0w$X?}"),
        (0, 0, 0, 0, 0, None, None) => write!(o, "{x}"),
        (0, 0, 0, 0, 1, None, None) => write!(o, "{x:<}"),
        (0, 0, 0, 0, 5, None, None) => write!(o, "{x:*^}"),
        (0, 0, 0, 1, 0, None, None) => write!(o, "{x:0}"),
        (0, 0, 0, 1, 1, None, None) => write!(o, "{x:<0}"),
        (0, 0, 0, 1, 5, None, None) => write!(o, "{x:*^0}"),
        (0, 0, 1, 0, 0, None, None) => write!(o, "{x:#}"),
        (0, 0, 1, 0, 1, None, None) => write!(o, "{x:<#}"),
        (0, 0, 1, 0, 5, None, None) => write!(o, "{x:*^#}"),
        (0, 0, 1, 1, 0, None, None) => write!(o, "{x:#0}"),
        (0, 0, 1, 1, 1, None, None) => write!(o, "{x:<#0}"),
        (0, 0, 1, 1, 5, None, None) => write!(o, "{x:*^#0}"),
        (0, 1, 0, 0, 0, None, None) => write!(o, "{x:+}"),
        (0, 1, 0, 0, 1, None, None) => write!(o, "{x:<+}"),
        (0, 1, 0, 0, 5, None, None) => write!(o, "{x:*^+}"),
        (0, 1, 0, 1, 0, None, None) => write!(o, "{x:+0}"),
        (0, 1, 0, 1, 1, None, None) => write!(o, "{x:<+0}"),
        (0, 1, 0, 1, 5, None, None) => write!(o, "{x:*^+0}"),
        (0, 1, 1, 0, 0, None, None) => write!(o, "{x:+#}"),
        (0, 1, 1, 0, 1, None, None) => write!(o, "{x:<+#}"),
        (0, 1, 1, 0, 5, None, None) => write!(o, "{x:*^+#}"),
        (0, 1, 1, 1, 0, None, None) => write!(o, "{x:+#0}"),
        (0, 1, 1, 1, 1, None, None) => write!(o, "{x:<+#0}"),
        (0, 1, 1, 1, 5, None, None) => write!(o, "{x:*^+#0}"),
        (0, 2, 0, 0, 0, None, None) => write!(o, "{x:-}"),
        (0, 2, 0, 0, 1, None, None) => write!(o, "{x:<-}"),
        (0, 2, 0, 0, 5, None, None) => write!(o, "{x:*^-}"),
        (0, 2, 0, 1, 0, None, None) => write!(o, "{x:-0}"),
        (0, 2, 0, 1, 1, None, None) => write!(o, "{x:<-0}"),
        (0, 2, 0, 1, 5, None, None) => write!(o, "{x:*^-0}"),
        (0, 2, 1, 0, 0, None, None) => write!(o, "{x:-#}"),
        (0, 2, 1, 0, 1, None, None) => write!(o, "{x:<-#}"),
        (0, 2, 1, 0, 5, None, None) => write!(o, "{x:*^-#}"),
        (0, 2, 1, 1, 0, None, None) => write!(o, "{x:-#0}"),
        (0, 2, 1, 1, 1, None, None) => write!(o, "{x:<-#0}"),
        (0, 2, 1, 1, 5, None, None) => write!(o, "{x:*^-#0}"),
        (1, 0, 0, 0, 0, None, None) => write!(o, "{x:x?}"),
        (1, 0, 0, 0, 1, None, None) => write!(o, "{x:<x?}"),
        (1, 0, 0, 0, 5, None, None) => write!(o, "{x:*^x?}"),
        (1, 0, 0, 1, 0, None, None) => write!(o, "{x:0x?}"),
        (1, 0, 0, 1, 1, None, None) => write!(o, "{x:<0x?}"),
        (1, 0, 0, 1, 5, None, None) => write!(o, "{x:*^0x?}"),
        (1, 0, 1, 0, 0, None, None) => write!(o, "{x:#x?}"),
        (1, 0, 1, 0, 1, None, None) => write!(o, "{x:<#x?}"),
        (1, 0, 1, 0, 5, None, None) => write!(o, "{x:*^#x?}"),
        (1, 0, 1, 1, 0, None, None) => write!(o, "{x:#0x?}"),
        (1, 0, 1, 1, 1, None, None) => write!(o, "{x:<#0x?}"),
        (1, 0, 1, 1, 5, None, None) => write!(o, "{x:*^#0x?}"),
        (1, 1, 0, 0, 0, None, None) => write!(o, "{x:+x?}"),
        (1, 1, 0, 0, 1, None, None) => write!(o, "{x:<+x?}"),
        (1, 1, 0, 0, 5, None, None) => write!(o, "{x:*^+x?}"),
        (1, 1, 0, 1, 0, None, None) => write!(o, "{x:+0x?}"),
        (1, 1, 0, 1, 1, None, None) => write!(o, "{x:<+0x?}"),
        (1, 1, 0, 1, 5, None, None) => write!(o, "{x:*^+0x?}"),
        (1, 1, 1, 0, 0, None, None) => write!(o, "{x:+#x?}"),
        (1, 1, 1, 0, 1, None, None) => write!(o, "{x:<+#x?}"),
        (1, 1, 1, 0, 5, None, None) => write!(o, "{x:*^+#x?}"),
        (1, 1, 1, 1, 0, None, None) => write!(o, "{x:+#0x?}"),
        (1, 1, 1, 1, 1, None, None) => write!(o, "{x:<+#0x?}"),
        (1, 1, 1, 1, 5, None, None) => write!(o, "{x:*^+#0x?}"),
        (1, 2, 0, 0, 0, None, None) => write!(o, "{x:-x?}"),
        (1, 2, 0, 0, 1, None, None) => write!(o, "{x:<-x?}"),
        (1, 2, 0, 0, 5, None, None) => write!(o, "{x:*^-x?}"),
        (1, 2, 0, 1, 0, None, None) => write!(o, "{x:-0x?}"),
        (1, 2, 0, 1, 1, None, None) => write!(o, "{x:<-0x?}"),
        (1, 2, 0, 1, 5, None, None) => write!(o, "{x:*^-0x?}"),
        (1, 2, 1, 0, 0, None, None) => write!(o, "{x:-#x?}"),
        (1, 2, 1, 0, 1, None, None) => write!(o, "{x:<-#x?}"),
        (1, 2, 1, 0, 5, None, None) => write!(o, "{x:*^-#x?}"),
        (1, 2, 1, 1, 0, None, None) => write!(o, "{x:-#0x?}"),
        (1, 2, 1, 1, 1, None, None) => write!(o, "{x:<-#0x?}"),
        (1, 2, 1, 1, 5, None, None) => write!(o, "{x:*^-#0x?}"),
        (2, 0, 0, 0, 0, None, None) => write!(o, "{x:X?}"),
        (2, 0, 0, 0, 1, None, None) => write!(o, "{x:<X?}"),
        (2, 0, 0, 0, 5, None, None) => write!(o, "{x:*^X?}"),
        (2, 0, 0, 1, 0, None, None) => write!(o, "{x:0X?}"),
        (2, 0, 0, 1, 1, None, None) => write!(o, "{x:<0X?}"),
        (2, 0, 0, 1, 5, None, None) => write!(o, "{x:*^0X?}"),
        (2, 0, 1, 0, 0, None, None) => write!(o, "{x:#X?}"),
        (2, 0, 1, 0, 1, None, None) => write!(o, "{x:<#X?}"),
        (2, 0, 1, 0, 5, None, None) => write!(o, "{x:*^#X?}"),
        (2, 0, 1, 1, 0, None, None) => write!(o, "{x:#0X?}"),
        (2, 0, 1, 1, 1, None, None) => write!(o, "{x:<#0X?}"),
        (2, 0, 1, 1, 5, None, None) => write!(o, "{x:*^#0X?}"),
        (2, 1, 0, 0, 0, None, None) => write!(o, "{x:+X?}"),
        (2, 1, 0, 0, 1, None, None) => write!(o, "{x:<+X?}"),
        (2, 1, 0, 0, 5, None, None) => write!(o, "{x:*^+X?}"),
        (2, 1, 0, 1, 0, None, None) => write!(o, "{x:+0X?}"),
        (2, 1, 0, 1, 1, None, None) => write!(o, "{x:<+0X?}"),
        (2, 1, 0, 1, 5, None, None) => write!(o, "{x:*^+0X?}"),
        (2, 1, 1, 0, 0, None, None) => write!(o, "{x:+#X?}"),
        (2, 1, 1, 0, 1, None, None) => write!(o, "{x:<+#X?}"),
        (2, 1, 1, 0, 5, None, None) => write!(o, "{x:*^+#X?}"),
        (2, 1, 1, 1, 0, None, None) => write!(o, "{x:+#0X?}"),
        (2, 1, 1, 1, 1, None, None) => write!(o, "{x:<+#0X?}"),
        (2, 1, 1, 1, 5, None, None) => write!(o, "{x:*^+#0X?}"),
        (2, 2, 0, 0, 0, None, None) => write!(o, "{x:-X?}"),
        (2, 2, 0, 0, 1, None, None) => write!(o, "{x:<-X?}"),
        (2, 2, 0, 0, 5, None, None) => write!(o, "{x:*^-X?}"),
        (2, 2, 0, 1, 0, None, None) => write!(o, "{x:-0X?}"),
        (2, 2, 0, 1, 1, None, None) => write!(o, "{x:<-0X?}"),
        (2, 2, 0, 1, 5, None, None) => write!(o, "{x:*^-0X?}"),
        (2, 2, 1, 0, 0, None, None) => write!(o, "{x:-#X?}"),
        (2, 2, 1, 0, 1, None, None) => write!(o, "{x:<-#X?}"),
        (2, 2, 1, 0, 5, None, None) => write!(o, "{x:*^-#X?}"),
        (2, 2, 1, 1, 0, None, None) => write!(o, "{x:-#0X?}"),
        (2, 2, 1, 1, 1, None, None) => write!(o, "{x:<-#0X?}"),
        (2, 2, 1, 1, 5, None, None) => write!(o, "{x:*^-#0X?}"),
        (0, 0, 0, 0, 0, None, Some(p)) => write!(o, "{x:.p$}"),
        (0, 0, 0, 0, 1, None, Some(p)) => write!(o, "{x:<.p$}"),
        (0, 0, 0, 0, 5, None, Some(p)) => write!(o, "{x:*^.p$}"),
        (0, 0, 0, 1, 0, None, Some(p)) => write!(o, "{x:0.p$}"),
        (0, 0, 0, 1, 1, None, Some(p)) => write!(o, "{x:<0.p$}"),
        (0, 0, 0, 1, 5, None, Some(p)) => write!(o, "{x:*^0.p$}"),
        (0, 0, 1, 0, 0, None, Some(p)) => write!(o, "{x:#.p$}"),
        (0, 0, 1, 0, 1, None, Some(p)) => write!(o, "{x:<#.p$}"),
        (0, 0, 1, 0, 5, None, Some(p)) => write!(o, "{x:*^#.p$}"),
        (0, 0, 1, 1, 0, None, Some(p)) => write!(o, "{x:#0.p$}"),
        (0, 0, 1, 1, 1, None, Some(p)) => write!(o, "{x:<#0.p$}"),
        (0, 0, 1, 1, 5, None, Some(p)) => write!(o, "{x:*^#0.p$}"),
        (0, 1, 0, 0, 0, None, Some(p)) => write!(o, "{x:+.p$}"),
        (0, 1, 0, 0, 1, None, Some(p)) => write!(o, "{x:<+.p$}"),
        (0, 1, 0, 0, 5, None, Some(p)) => write!(o, "{x:*^+.p$}"),
        (0, 1, 0, 1, 0, None, Some(p)) => write!(o, "{x:+0.p$}"),
        (0, 1, 0, 1, 1, None, Some(p)) => write!(o, "{x:<+0.p$}"),
        (0, 1, 0, 1, 5, None, Some(p)) => write!(o, "{x:*^+0.p$}"),
        (0, 1, 1, 0, 0, None, Some(p)) => write!(o, "{x:+#.p$}"),
        (0, 1, 1, 0, 1, None, Some(p)) => write!(o, "{x:<+#.p$}"),
        (0, 1, 1, 0, 5, None, Some(p)) => write!(o, "{x:*^+#.p$}"),
        (0, 1, 1, 1, 0, None, Some(p)) => write!(o, "{x:+#0.p$}"),
        (0, 1, 1, 1, 1, None, Some(p)) => write!(o, "{x:<+#0.p$}"),
        (0, 1, 1, 1, 5, None, Some(p)) => write!(o, "{x:*^+#0.p$}"),
        (0, 2, 0, 0, 0, None, Some(p)) => write!(o, "{x:-.p$}"),
        (0, 2, 0, 0, 1, None, Some(p)) => write!(o, "{x:<-.p$}"),
        (0, 2, 0, 0, 5, None, Some(p)) => write!(o, "{x:*^-.p$}"),
        (0, 2, 0, 1, 0, None, Some(p)) => write!(o, "{x:-0.p$}"),
        (0, 2, 0, 1, 1, None, Some(p)) => write!(o, "{x:<-0.p$}"),
        (0, 2, 0, 1, 5, None, Some(p)) => write!(o, "{x:*^-0.p$}"),
        (0, 2, 1, 0, 0, None, Some(p)) => write!(o, "{x:-#.p$}"),
        (0, 2, 1, 0, 1, None, Some(p)) => write!(o, "{x:<-#.p$}"),
        (0, 2, 1, 0, 5, None, Some(p)) => write!(o, "{x:*^-#.p$}"),
        (0, 2, 1, 1, 0, None, Some(p)) => write!(o, "{x:-#0.p$}"),
        (0, 2, 1, 1, 1, None, Some(p)) => write!(o, "{x:<-#0.p$}"),
        (0, 2, 1, 1, 5, None, Some(p)) => write!(o, "{x:*^-#0.p$}"),
        (1, 0, 0, 0, 0, None, Some(p)) => write!(o, "{x:.p$x?}"),
        (1, 0, 0, 0, 1, None, Some(p)) => write!(o, "{x:<.p$x?}"),
        (1, 0, 0, 0, 5, None, Some(p)) => write!(o, "{x:*^.p$x?}"),
        (1, 0, 0, 1, 0, None, Some(p)) => write!(o, "{x:0.p$x?}"),
        (1, 0, 0, 1, 1, None, Some(p)) => write!(o, "{x:<0.p$x?}"),
        (1, 0, 0, 1, 5, None, Some(p)) => write!(o, "{x:*^0.p$x?}"),
        (1, 0, 1, 0, 0, None, Some(p)) => write!(o, "{x:#.p$x?}"),
        (1, 0, 1, 0, 1, None, Some(p)) => write!(o, "{x:<#.p$x?}"),
        (1, 0, 1, 0, 5, None, Some(p)) => write!(o, "{x:*^#.p$x?}"),
        (1, 0, 1, 1, 0, None, Some(p)) => write!(o, "{x:#0.p$x?}"),
        (1, 0, 1, 1, 1, None, Some(p)) => write!(o, "{x:<#0.p$x?}"),
        (1, 0, 1, 1, 5, None, Some(p)) => write!(o, "{x:*^#0.p$x?}"),
        (1, 1, 0, 0, 0, None, Some(p)) => write!(o, "{x:+.p$x?}"),
        (1, 1, 0, 0, 1, None, Some(p)) => write!(o, "{x:<+.p$x?}"),
        (1, 1, 0, 0, 5, None, Some(p)) => write!(o, "{x:*^+.p$x?}"),
        (1, 1, 0, 1, 0, None, Some(p)) => write!(o, "{x:+0.p$x?}"),
        (1, 1, 0, 1, 1, None, Some(p)) => write!(o, "{x:<+0.p$x?}"),
        (1, 1, 0, 1, 5, None, Some(p)) => write!(o, "{x:*^+0.p$x?}"),
        (1, 1, 1, 0, 0, None, Some(p)) => write!(o, "{x:+#.p$x?}"),
        (1, 1, 1, 0, 1, None, Some(p)) => write!(o, "{x:<+#.p$x?}"),
        (1, 1, 1, 0, 5, None, Some(p)) => write!(o, "{x:*^+#.p$x?}"),
        (1, 1, 1, 1, 0, None, Some(p)) => write!(o, "{x:+#0.p$x?}"),
        (1, 1, 1, 1, 1, None, Some(p)) => write!(o, "{x:<+#0.p$x?}"),
        (1, 1, 1, 1, 5, None, Some(p)) => write!(o, "{x:*^+#0.p$x?}"),
        (1, 2, 0, 0, 0, None, Some(p)) => write!(o, "{x:-.p$x?}"),
        (1, 2, 0, 0, 1, None, Some(p)) => write!(o, "{x:<-.p$x?}"),
        (1, 2, 0, 0, 5, None, Some(p)) => write!(o, "{x:*^-.p$x?}"),
        (1, 2, 0, 1, 0, None, Some(p)) => write!(o, "{x:-0.p$x?}"),
        (1, 2, 0, 1, 1, None, Some(p)) => write!(o, "{x:<-0.p$x?}"),
        (1, 2, 0, 1, 5, None, Some(p)) => write!(o, "{x:*^-0.p$x?}"),
        (1, 2, 1, 0, 0, None, Some(p)) => write!(o, "{x:-#.p$x?}"),
        (1, 2, 1, 0, 1, None, Some(p)) => write!(o, "{x:<-#.p$x?}"),
        (1, 2, 1, 0, 5, None, Some(p)) => write!(o, "{x:*^-#.p$x?}"),
        (1, 2, 1, 1, 0, None, Some(p)) => write!(o, "{x:-#0.p$x?}"),
        (1, 2, 1, 1, 1, None, Some(p)) => write!(o, "{x:<-#0.p$x?}"),
        (1, 2, 1, 1, 5, None, Some(p)) => write!(o, "{x:*^-#0.p$x?}"),
        (2, 0, 0, 0, 0, None, Some(p)) => write!(o, "{x:.p$X?}"),
        (2, 0, 0, 0, 1, None, Some(p)) => write!(o, "{x:<.p$X?}"),
        (2, 0, 0, 0, 5, None, Some(p)) => write!(o, "{x:*^.p$X?}"),
        (2, 0, 0, 1, 0, None, Some(p)) => write!(o, "{x:0.p$X?}"),
        (2, 0, 0, 1, 1, None, Some(p)) => write!(o, "{x:<0.p$X?}"),
        (2, 0, 0, 1, 5, None, Some(p)) => write!(o, "{x:*^0.p$X?}"),
        (2, 0, 1, 0, 0, None, Some(p)) => write!(o, "{x:#.p$X?}"),
        (2, 0, 1, 0, 1, None, Some(p)) => write!(o, "{x:<#.p$X?}"),
        (2, 0, 1, 0, 5, None, Some(p)) => write!(o, "{x:*^#.p$X?}"),
        (2, 0, 1, 1, 0, None, Some(p)) => write!(o, "{x:#0.p$X?}"),
        (2, 0, 1, 1, 1, None, Some(p)) => write!(o, "{x:<#0.p$X?}"),
        (2, 0, 1, 1, 5, None, Some(p)) => write!(o, "{x:*^#0.p$X?}"),
        (2, 1, 0, 0, 0, None, Some(p)) => write!(o, "{x:+.p$X?}"),
        (2, 1, 0, 0, 1, None, Some(p)) => write!(o, "{x:<+.p$X?}"),
        (2, 1, 0, 0, 5, None, Some(p)) => write!(o, "{x:*^+.p$X?}"),
        (2, 1, 0, 1, 0, None, Some(p)) => write!(o, "{x:+0.p$X?}"),
        (2, 1, 0, 1, 1, None, Some(p)) => write!(o, "{x:<+0.p$X?}"),
        (2, 1, 0, 1, 5, None, Some(p)) => write!(o, "{x:*^+0.p$X?}"),
        (2, 1, 1, 0, 0, None, Some(p)) => write!(o, "{x:+#.p$X?}"),
        (2, 1, 1, 0, 1, None, Some(p)) => write!(o, "{x:<+#.p$X?}"),
        (2, 1, 1, 0, 5, None, Some(p)) => write!(o, "{x:*^+#.p$X?}"),
        (2, 1, 1, 1, 0, None, Some(p)) => write!(o, "{x:+#0.p$X?}"),
        (2, 1, 1, 1, 1, None, Some(p)) => write!(o, "{x:<+#0.p$X?}"),
        (2, 1, 1, 1, 5, None, Some(p)) => write!(o, "{x:*^+#0.p$X?}"),
        (2, 2, 0, 0, 0, None, Some(p)) => write!(o, "{x:-.p$X?}"),
        (2, 2, 0, 0, 1, None, Some(p)) => write!(o, "{x:<-.p$X?}"),
        (2, 2, 0, 0, 5, None, Some(p)) => write!(o, "{x:*^-.p$X?}"),
        (2, 2, 0, 1, 0, None, Some(p)) => write!(o, "{x:-0.p$X?}"),
        (2, 2, 0, 1, 1, None, Some(p)) => write!(o, "{x:<-0.p$X?}"),
        (2, 2, 0, 1, 5, None, Some(p)) => write!(o, "{x:*^-0.p$X?}"),
        (2, 2, 1, 0, 0, None, Some(p)) => write!(o, "{x:-#.p$X?}"),
        (2, 2, 1, 0, 1, None, Some(p)) => write!(o, "{x:<-#.p$X?}"),
        (2, 2, 1, 0, 5, None, Some(p)) => write!(o, "{x:*^-#.p$X?}"),
        (2, 2, 1, 1, 0, None, Some(p)) => write!(o, "{x:-#0.p$X?}"),
        (2, 2, 1, 1, 1, None, Some(p)) => write!(o, "{x:<-#0.p$X?}"),
        (2, 2, 1, 1, 5, None, Some(p)) => write!(o, "{x:*^-#0.p$X?}"),
        (0, 0, 0, 0, 0, Some(w), Some(p)) => write!(o, "{x:w$.p$}"),
        (0, 0, 0, 0, 1, Some(w), Some(p)) => write!(o, "{x:<w$.p$}"),
        (0, 0, 0, 0, 5, Some(w), Some(p)) => write!(o, "{x:*^w$.p$}"),
        (0, 0, 0, 1, 0, Some(w), Some(p)) => write!(o, "{x:0w$.p$}"),
        (0, 0, 0, 1, 1, Some(w), Some(p)) => write!(o, "{x:<0w$.p$}"),
        (0, 0, 0, 1, 5, Some(w), Some(p)) => write!(o, "{x:*^0w$.p$}"),
        (0, 0, 1, 0, 0, Some(w), Some(p)) => write!(o, "{x:#w$.p$}"),
        (0, 0, 1, 0, 1, Some(w), Some(p)) => write!(o, "{x:<#w$.p$}"),
        (0, 0, 1, 0, 5, Some(w), Some(p)) => write!(o, "{x:*^#w$.p$}"),
        (0, 0, 1, 1, 0, Some(w), Some(p)) => write!(o, "{x:#0w$.p$}"),
        (0, 0, 1, 1, 1, Some(w), Some(p)) => write!(o, "{x:<#0w$.p$}"),
        (0, 0, 1, 1, 5, Some(w), Some(p)) => write!(o, "{x:*^#0w$.p$}"),
        (0, 1, 0, 0, 0, Some(w), Some(p)) => write!(o, "{x:+w$.p$}"),
        (0, 1, 0, 0, 1, Some(w), Some(p)) => write!(o, "{x:<+w$.p$}"),
        (0, 1, 0, 0, 5, Some(w), Some(p)) => write!(o, "{x:*^+w$.p$}"),
        (0, 1, 0, 1, 0, Some(w), Some(p)) => write!(o, "{x:+0w$.p$}"),
        (0, 1, 0, 1, 1, Some(w), Some(p)) => write!(o, "{x:<+0w$.p$}"),
        (0, 1, 0, 1, 5, Some(w), Some(p)) => write!(o, "{x:*^+0w$.p$}"),
        (0, 1, 1, 0, 0, Some(w), Some(p)) => write!(o, "{x:+#w$.p$}"),
        (0, 1, 1, 0, 1, Some(w), Some(p)) => write!(o, "{x:<+#w$.p$}"),
        (0, 1, 1, 0, 5, Some(w), Some(p)) => write!(o, "{x:*^+#w$.p$}"),
        (0, 1, 1, 1, 0, Some(w), Some(p)) => write!(o, "{x:+#0w$.p$}"),
        (0, 1, 1, 1, 1, Some(w), Some(p)) => write!(o, "{x:<+#0w$.p$}"),
        (0, 1, 1, 1, 5, Some(w), Some(p)) => write!(o, "{x:*^+#0w$.p$}"),
        (0, 2, 0, 0, 0, Some(w), Some(p)) => write!(o, "{x:-w$.p$}"),
        (0, 2, 0, 0, 1, Some(w), Some(p)) => write!(o, "{x:<-w$.p$}"),
        (0, 2, 0, 0, 5, Some(w), Some(p)) => write!(o, "{x:*^-w$.p$}"),
        (0, 2, 0, 1, 0, Some(w), Some(p)) => write!(o, "{x:-0w$.p$}"),
        (0, 2, 0, 1, 1, Some(w), Some(p)) => write!(o, "{x:<-0w$.p$}"),
        (0, 2, 0, 1, 5, Some(w), Some(p)) => write!(o, "{x:*^-0w$.p$}"),
        (0, 2, 1, 0, 0, Some(w), Some(p)) => write!(o, "{x:-#w$.p$}"),
        (0, 2, 1, 0, 1, Some(w), Some(p)) => write!(o, "{x:<-#w$.p$}"),
        (0, 2, 1, 0, 5, Some(w), Some(p)) => write!(o, "{x:*^-#w$.p$}"),
        (0, 2, 1, 1, 0, Some(w), Some(p)) => write!(o, "{x:-#0w$.p$}"),
        (0, 2, 1, 1, 1, Some(w), Some(p)) => write!(o, "{x:<-#0w$.p$}"),
        (0, 2, 1, 1, 5, Some(w), Some(p)) => write!(o, "{x:*^-#0w$.p$}"),
        (1, 0, 0, 0, 0, Some(w), Some(p)) => write!(o, "{x:w$.p$x?}"),
        (1, 0, 0, 0, 1, Some(w), Some(p)) => write!(o, "{x:<w$.p$x?}"),
        (1, 0, 0, 0, 5, Some(w), Some(p)) => write!(o, "{x:*^w$.p$x?}"),
        (1, 0, 0, 1, 0, Some(w), Some(p)) => write!(o, "{x:0w$.p$x?}"),
        (1, 0, 0, 1, 1, Some(w), Some(p)) => write!(o, "{x:<0w$.p$x?}"),
        (1, 0, 0, 1, 5, Some(w), Some(p)) => write!(o, "{x:*^0w$.p$x?}"),
        (1, 0, 1, 0, 0, Some(w), Some(p)) => write!(o, "{x:#w$.p$x?}"),
        (1, 0, 1, 0, 1, Some(w), Some(p)) => write!(o, "{x:<#w$.p$x?}"),
        (1, 0, 1, 0, 5, Some(w), Some(p)) => write!(o, "{x:*^#w$.p$x?}"),
        (1, 0, 1, 1, 0, Some(w), Some(p)) => write!(o, "{x:#0w$.p$x?}"),
        (1, 0, 1, 1, 1, Some(w), Some(p)) => write!(o, "{x:<#0w$.p$x?}"),
        (1, 0, 1, 1, 5, Some(w), Some(p)) => write!(o, "{x:*^#0w$.p$x?}"),
        (1, 1, 0, 0, 0, Some(w), Some(p)) => write!(o, "{x:+w$.p$x?}"),
        (1, 1, 0, 0, 1, Some(w), Some(p)) => write!(o, "{x:<+w$.p$x?}"),
        (1, 1, 0, 0, 5, Some(w), Some(p)) => write!(o, "{x:*^+w$.p$x?}"),
        (1, 1, 0, 1, 0, Some(w), Some(p)) => write!(o, "{x:+0w$.p$x?}"),
        (1, 1, 0, 1, 1, Some(w), Some(p)) => write!(o, "{x:<+0w$.p$x?}"),
        (1, 1, 0, 1, 5, Some(w), Some(p)) => write!(o, "{x:*^+0w$.p$x?}"),
        (1, 1, 1, 0, 0, Some(w), Some(p)) => write!(o, "{x:+#w$.p$x?}"),
        (1, 1, 1, 0, 1, Some(w), Some(p)) => write!(o, "{x:<+#w$.p$x?}"),
        (1, 1, 1, 0, 5, Some(w), Some(p)) => write!(o, "{x:*^+#w$.p$x?}"),
        (1, 1, 1, 1, 0, Some(w), Some(p)) => write!(o, "{x:+#0w$.p$x?}"),
        (1, 1, 1, 1, 1, Some(w), Some(p)) => write!(o, "{x:<+#0w$.p$x?}"),
        (1, 1, 1, 1, 5, Some(w), Some(p)) => write!(o, "{x:*^+#0w$.p$x?}"),
        (1, 2, 0, 0, 0, Some(w), Some(p)) => write!(o, "{x:-w$.p$x?}"),
        (1, 2, 0, 0, 1, Some(w), Some(p)) => write!(o, "{x:<-w$.p$x?}"),
        (1, 2, 0, 0, 5, Some(w), Some(p)) => write!(o, "{x:*^-w$.p$x?}"),
        (1, 2, 0, 1, 0, Some(w), Some(p)) => write!(o, "{x:-0w$.p$x?}"),
        (1, 2, 0, 1, 1, Some(w), Some(p)) => write!(o, "{x:<-0w$.p$x?}"),
        (1, 2, 0, 1, 5, Some(w), Some(p)) => write!(o, "{x:*^-0w$.p$x?}"),
        (1, 2, 1, 0, 0, Some(w), Some(p)) => write!(o, "{x:-#w$.p$x?}"),
        (1, 2, 1, 0, 1, Some(w), Some(p)) => write!(o, "{x:<-#w$.p$x?}"),
        (1, 2, 1, 0, 5, Some(w), Some(p)) => write!(o, "{x:*^-#w$.p$x?}"),
        (1, 2, 1, 1, 0, Some(w), Some(p)) => write!(o, "{x:-#0w$.p$x?}"),
        (1, 2, 1, 1, 1, Some(w), Some(p)) => write!(o, "{x:<-#0w$.p$x?}"),
        (1, 2, 1, 1, 5, Some(w), Some(p)) => write!(o, "{x:*^-#0w$.p$x?}"),
        (2, 0, 0, 0, 0, Some(w), Some(p)) => write!(o, "{x:w$.p$X?}"),
        (2, 0, 0, 0, 1, Some(w), Some(p)) => write!(o, "{x:<w$.p$X?}"),
        (2, 0, 0, 0, 5, Some(w), Some(p)) => write!(o, "{x:*^w$.p$X?}"),
        (2, 0, 0, 1, 0, Some(w), Some(p)) => write!(o, "{x:0w$.p$X?}"),
        (2, 0, 0, 1, 1, Some(w), Some(p)) => write!(o, "{x:<0w$.p$X?}"),
        (2, 0, 0, 1, 5, Some(w), Some(p)) => write!(o, "{x:*^0w$.p$X?}"),
        (2, 0, 1, 0, 0, Some(w), Some(p)) => write!(o, "{x:#w$.p$X?}"),
        (2, 0, 1, 0, 1, Some(w), Some(p)) => write!(o, "{x:<#w$.p$X?}"),
        (2, 0, 1, 0, 5, Some(w), Some(p)) => write!(o, "{x:*^#w$.p$X?}"),
        (2, 0, 1, 1, 0, Some(w), Some(p)) => write!(o, "{x:#0w$.p$X?}"),
        (2, 0, 1, 1, 1, Some(w), Some(p)) => write!(o, "{x:<#0w$.p$X?}"),
        (2, 0, 1, 1, 5, Some(w), Some(p)) => write!(o, "{x:*^#0w$.p$X?}"),
        (2, 1, 0, 0, 0, Some(w), Some(p)) => write!(o, "{x:+w$.p$X?}"),
        (2, 1, 0, 0, 1, Some(w), Some(p)) => write!(o, "{x:<+w$.p$X?}"),
        (2, 1, 0, 0, 5, Some(w), Some(p)) => write!(o, "{x:*^+w$.p$X?}"),
        (2, 1, 0, 1, 0, Some(w), Some(p)) => write!(o, "{x:+0w$.p$X?}"),
        (2, 1, 0, 1, 1, Some(w), Some(p)) => write!(o, "{x:<+0w$.p$X?}"),
        (2, 1, 0, 1, 5, Some(w), Some(p)) => write!(o, "{x:*^+0w$.p$X?}"),
        (2, 1, 1, 0, 0, Some(w), Some(p)) => write!(o, "{x:+#w$.p$X?}"),
        (2, 1, 1, 0, 1, Some(w), Some(p)) => write!(o, "{x:<+#w$.p$X?}"),
        (2, 1, 1, 0, 5, Some(w), Some(p)) => write!(o, "{x:*^+#w$.p$X?}"),
        (2, 1, 1, 1, 0, Some(w), Some(p)) => write!(o, "{x:+#0w$.p$X?}"),
        (2, 1, 1, 1, 1, Some(w), Some(p)) => write!(o, "{x:<+#0w$.p$X?}"),
        (2, 1, 1, 1, 5, Some(w), Some(p)) => write!(o, "{x:*^+#0w$.p$X?}"),
        (2, 2, 0, 0, 0, Some(w), Some(p)) => write!(o, "{x:-w$.p$X?}"),
        (2, 2, 0, 0, 1, Some(w), Some(p)) => write!(o, "{x:<-w$.p$X?}"),
        (2, 2, 0, 0, 5, Some(w), Some(p)) => write!(o, "{x:*^-w$.p$X?}"),
        (2, 2, 0, 1, 0, Some(w), Some(p)) => write!(o, "{x:-0w$.p$X?}"),
        (2, 2, 0, 1, 1, Some(w), Some(p)) => write!(o, "{x:<-0w$.p$X?}"),
        (2, 2, 0, 1, 5, Some(w), Some(p)) => write!(o, "{x:*^-0w$.p$X?}"),
        (2, 2, 1, 0, 0, Some(w), Some(p)) => write!(o, "{x:-#w$.p$X?}"),
        (2, 2, 1, 0, 1, Some(w), Some(p)) => write!(o, "{x:<-#w$.p$X?}"),
        (2, 2, 1, 0, 5, Some(w), Some(p)) => write!(o, "{x:*^-#w$.p$X?}"),
        (2, 2, 1, 1, 0, Some(w), Some(p)) => write!(o, "{x:-#0w$.p$X?}"),
        (2, 2, 1, 1, 1, Some(w), Some(p)) => write!(o, "{x:<-#0w$.p$X?}"),
        (2, 2, 1, 1, 5, Some(w), Some(p)) => write!(o, "{x:*^-#0w$.p$X?}"),
        _ => unreachable!(),
    }
}

/// The same as a new string.
#[allow(clippy::too_many_arguments)]
pub fn render<T: Display + Debug>(x: &T, dbg: u8, sgf: u8, alt: u8, zero: u8, align: u8, w: Option<usize>, p: Option<usize>) -> String {
    let mut s = String::new();
    render_to(&mut s, x, dbg, sgf, alt, zero, align, w, p).unwrap();
    s
}
