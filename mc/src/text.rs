//! Text: parsing and formatting, and the reference for both.

use crate::refn::{self, Radix};
use std::fmt::{Display, LowerHex, UpperHex};

/// The format specifications: (fill and alignment, sign, prefix, zero flag)
pub const SPECS: &[(&str, bool, bool, bool)] = &[
    ("", false, false, false),
    ("", false, false, true),
    ("", false, true, false),
    ("", false, true, true),
    ("", true, false, false),
    ("", true, false, true),
    ("", true, true, false),
    ("", true, true, true),
    ("<", false, false, false),
    ("<", false, false, true),
    ("<", false, true, false),
    ("<", false, true, true),
    ("<", true, false, false),
    ("<", true, false, true),
    ("<", true, true, false),
    ("<", true, true, true),
    ("^", false, false, false),
    ("^", false, false, true),
    ("^", false, true, false),
    ("^", false, true, true),
    ("^", true, false, false),
    ("^", true, false, true),
    ("^", true, true, false),
    ("^", true, true, true),
    (">", false, false, false),
    (">", false, false, true),
    (">", false, true, false),
    (">", false, true, true),
    (">", true, false, false),
    (">", true, false, true),
    (">", true, true, false),
    (">", true, true, true),
    ("*<", false, false, false),
    ("*<", false, false, true),
    ("*<", false, true, false),
    ("*<", false, true, true),
    ("*<", true, false, false),
    ("*<", true, false, true),
    ("*<", true, true, false),
    ("*<", true, true, true),
    ("*^", false, false, false),
    ("*^", false, false, true),
    ("*^", false, true, false),
    ("*^", false, true, true),
    ("*^", true, false, false),
    ("*^", true, false, true),
    ("*^", true, true, false),
    ("*^", true, true, true),
    ("*>", false, false, false),
    ("*>", false, false, true),
    ("*>", false, true, false),
    ("*>", false, true, true),
    ("*>", true, false, false),
    ("*>", true, false, true),
    ("*>", true, true, false),
    ("*>", true, true, true),
    ("0<", false, false, false),
    ("0<", false, false, true),
    ("0<", false, true, false),
    ("0<", false, true, true),
    ("0<", true, false, false),
    ("0<", true, false, true),
    ("0<", true, true, false),
    ("0<", true, true, true),
    // with a precision, which integers ignore, and with a fill that is not ASCII
    ("", false, false, false),
    ("", true, true, true),
    ("*^", false, false, false),
    ("<", false, true, false),
    ("\u{e9}>", false, false, false),
    ("\u{e9}^", true, true, false),
];

#[rustfmt::skip]
pub fn fmt_display(x: &dyn Display, spec: usize, width: usize) -> String {
    match (spec, width) {
        (0, 0) => format!("{:}", x),
        (0, w) => format!("{:w$}", x, w = w),
        (1, 0) => format!("{:0}", x),
        (1, w) => format!("{:0w$}", x, w = w),
        (2, 0) => format!("{:#}", x),
        (2, w) => format!("{:#w$}", x, w = w),
        (3, 0) => format!("{:#0}", x),
        (3, w) => format!("{:#0w$}", x, w = w),
        (4, 0) => format!("{:+}", x),
        (4, w) => format!("{:+w$}", x, w = w),
        (5, 0) => format!("{:+0}", x),
        (5, w) => format!("{:+0w$}", x, w = w),
        (6, 0) => format!("{:+#}", x),
        (6, w) => format!("{:+#w$}", x, w = w),
        (7, 0) => format!("{:+#0}", x),
        (7, w) => format!("{:+#0w$}", x, w = w),
        (8, 0) => format!("{:<}", x),
        (8, w) => format!("{:<w$}", x, w = w),
        (9, 0) => format!("{:<0}", x),
        (9, w) => format!("{:<0w$}", x, w = w),
        (10, 0) => format!("{:<#}", x),
        (10, w) => format!("{:<#w$}", x, w = w),
        (11, 0) => format!("{:<#0}", x),
        (11, w) => format!("{:<#0w$}", x, w = w),
        (12, 0) => format!("{:<+}", x),
        (12, w) => format!("{:<+w$}", x, w = w),
        (13, 0) => format!("{:<+0}", x),
        (13, w) => format!("{:<+0w$}", x, w = w),
        (14, 0) => format!("{:<+#}", x),
        (14, w) => format!("{:<+#w$}", x, w = w),
        (15, 0) => format!("{:<+#0}", x),
        (15, w) => format!("{:<+#0w$}", x, w = w),
        (16, 0) => format!("{:^}", x),
        (16, w) => format!("{:^w$}", x, w = w),
        (17, 0) => format!("{:^0}", x),
        (17, w) => format!("{:^0w$}", x, w = w),
        (18, 0) => format!("{:^#}", x),
        (18, w) => format!("{:^#w$}", x, w = w),
        (19, 0) => format!("{:^#0}", x),
        (19, w) => format!("{:^#0w$}", x, w = w),
        (20, 0) => format!("{:^+}", x),
        (20, w) => format!("{:^+w$}", x, w = w),
        (21, 0) => format!("{:^+0}", x),
        (21, w) => format!("{:^+0w$}", x, w = w),
        (22, 0) => format!("{:^+#}", x),
        (22, w) => format!("{:^+#w$}", x, w = w),
        (23, 0) => format!("{:^+#0}", x),
        (23, w) => format!("{:^+#0w$}", x, w = w),
        (24, 0) => format!("{:>}", x),
        (24, w) => format!("{:>w$}", x, w = w),
        (25, 0) => format!("{:>0}", x),
        (25, w) => format!("{:>0w$}", x, w = w),
        (26, 0) => format!("{:>#}", x),
        (26, w) => format!("{:>#w$}", x, w = w),
        (27, 0) => format!("{:>#0}", x),
        (27, w) => format!("{:>#0w$}", x, w = w),
        (28, 0) => format!("{:>+}", x),
        (28, w) => format!("{:>+w$}", x, w = w),
        (29, 0) => format!("{:>+0}", x),
        (29, w) => format!("{:>+0w$}", x, w = w),
        (30, 0) => format!("{:>+#}", x),
        (30, w) => format!("{:>+#w$}", x, w = w),
        (31, 0) => format!("{:>+#0}", x),
        (31, w) => format!("{:>+#0w$}", x, w = w),
        (32, 0) => format!("{:*<}", x),
        (32, w) => format!("{:*<w$}", x, w = w),
        (33, 0) => format!("{:*<0}", x),
        (33, w) => format!("{:*<0w$}", x, w = w),
        (34, 0) => format!("{:*<#}", x),
        (34, w) => format!("{:*<#w$}", x, w = w),
        (35, 0) => format!("{:*<#0}", x),
        (35, w) => format!("{:*<#0w$}", x, w = w),
        (36, 0) => format!("{:*<+}", x),
        (36, w) => format!("{:*<+w$}", x, w = w),
        (37, 0) => format!("{:*<+0}", x),
        (37, w) => format!("{:*<+0w$}", x, w = w),
        (38, 0) => format!("{:*<+#}", x),
        (38, w) => format!("{:*<+#w$}", x, w = w),
        (39, 0) => format!("{:*<+#0}", x),
        (39, w) => format!("{:*<+#0w$}", x, w = w),
        (40, 0) => format!("{:*^}", x),
        (40, w) => format!("{:*^w$}", x, w = w),
        (41, 0) => format!("{:*^0}", x),
        (41, w) => format!("{:*^0w$}", x, w = w),
        (42, 0) => format!("{:*^#}", x),
        (42, w) => format!("{:*^#w$}", x, w = w),
        (43, 0) => format!("{:*^#0}", x),
        (43, w) => format!("{:*^#0w$}", x, w = w),
        (44, 0) => format!("{:*^+}", x),
        (44, w) => format!("{:*^+w$}", x, w = w),
        (45, 0) => format!("{:*^+0}", x),
        (45, w) => format!("{:*^+0w$}", x, w = w),
        (46, 0) => format!("{:*^+#}", x),
        (46, w) => format!("{:*^+#w$}", x, w = w),
        (47, 0) => format!("{:*^+#0}", x),
        (47, w) => format!("{:*^+#0w$}", x, w = w),
        (48, 0) => format!("{:*>}", x),
        (48, w) => format!("{:*>w$}", x, w = w),
        (49, 0) => format!("{:*>0}", x),
        (49, w) => format!("{:*>0w$}", x, w = w),
        (50, 0) => format!("{:*>#}", x),
        (50, w) => format!("{:*>#w$}", x, w = w),
        (51, 0) => format!("{:*>#0}", x),
        (51, w) => format!("{:*>#0w$}", x, w = w),
        (52, 0) => format!("{:*>+}", x),
        (52, w) => format!("{:*>+w$}", x, w = w),
        (53, 0) => format!("{:*>+0}", x),
        (53, w) => format!("{:*>+0w$}", x, w = w),
        (54, 0) => format!("{:*>+#}", x),
        (54, w) => format!("{:*>+#w$}", x, w = w),
        (55, 0) => format!("{:*>+#0}", x),
        (55, w) => format!("{:*>+#0w$}", x, w = w),
        (56, 0) => format!("{:0<}", x),
        (56, w) => format!("{:0<w$}", x, w = w),
        (57, 0) => format!("{:0<0}", x),
        (57, w) => format!("{:0<0w$}", x, w = w),
        (58, 0) => format!("{:0<#}", x),
        (58, w) => format!("{:0<#w$}", x, w = w),
        (59, 0) => format!("{:0<#0}", x),
        (59, w) => format!("{:0<#0w$}", x, w = w),
        (60, 0) => format!("{:0<+}", x),
        (60, w) => format!("{:0<+w$}", x, w = w),
        (61, 0) => format!("{:0<+0}", x),
        (61, w) => format!("{:0<+0w$}", x, w = w),
        (62, 0) => format!("{:0<+#}", x),
        (62, w) => format!("{:0<+#w$}", x, w = w),
        (63, 0) => format!("{:0<+#0}", x),
        (63, w) => format!("{:0<+#0w$}", x, w = w),
        (64, 0) => format!("{:.0}", x),
        (64, w) => format!("{:w$.0}", x, w = w),
        (65, 0) => format!("{:+#0.3}", x),
        (65, w) => format!("{:+#0w$.3}", x, w = w),
        (66, 0) => format!("{:*^.2}", x),
        (66, w) => format!("{:*^w$.2}", x, w = w),
        (67, 0) => format!("{:<#.60}", x),
        (67, w) => format!("{:<#w$.60}", x, w = w),
        (68, 0) => format!("{:\u{e9}>}", x),
        (68, w) => format!("{:\u{e9}>w$}", x, w = w),
        (69, 0) => format!("{:\u{e9}^+#}", x),
        (69, w) => format!("{:\u{e9}^+#w$}", x, w = w),
        _ => unreachable!(),
    }
}

#[rustfmt::skip]
pub fn fmt_lower(x: &dyn LowerHex, spec: usize, width: usize) -> String {
    match (spec, width) {
        (0, 0) => format!("{:x}", x),
        (0, w) => format!("{:w$x}", x, w = w),
        (1, 0) => format!("{:0x}", x),
        (1, w) => format!("{:0w$x}", x, w = w),
        (2, 0) => format!("{:#x}", x),
        (2, w) => format!("{:#w$x}", x, w = w),
        (3, 0) => format!("{:#0x}", x),
        (3, w) => format!("{:#0w$x}", x, w = w),
        (4, 0) => format!("{:+x}", x),
        (4, w) => format!("{:+w$x}", x, w = w),
        (5, 0) => format!("{:+0x}", x),
        (5, w) => format!("{:+0w$x}", x, w = w),
        (6, 0) => format!("{:+#x}", x),
        (6, w) => format!("{:+#w$x}", x, w = w),
        (7, 0) => format!("{:+#0x}", x),
        (7, w) => format!("{:+#0w$x}", x, w = w),
        (8, 0) => format!("{:<x}", x),
        (8, w) => format!("{:<w$x}", x, w = w),
        (9, 0) => format!("{:<0x}", x),
        (9, w) => format!("{:<0w$x}", x, w = w),
        (10, 0) => format!("{:<#x}", x),
        (10, w) => format!("{:<#w$x}", x, w = w),
        (11, 0) => format!("{:<#0x}", x),
        (11, w) => format!("{:<#0w$x}", x, w = w),
        (12, 0) => format!("{:<+x}", x),
        (12, w) => format!("{:<+w$x}", x, w = w),
        (13, 0) => format!("{:<+0x}", x),
        (13, w) => format!("{:<+0w$x}", x, w = w),
        (14, 0) => format!("{:<+#x}", x),
        (14, w) => format!("{:<+#w$x}", x, w = w),
        (15, 0) => format!("{:<+#0x}", x),
        (15, w) => format!("{:<+#0w$x}", x, w = w),
        (16, 0) => format!("{:^x}", x),
        (16, w) => format!("{:^w$x}", x, w = w),
        (17, 0) => format!("{:^0x}", x),
        (17, w) => format!("{:^0w$x}", x, w = w),
        (18, 0) => format!("{:^#x}", x),
        (18, w) => format!("{:^#w$x}", x, w = w),
        (19, 0) => format!("{:^#0x}", x),
        (19, w) => format!("{:^#0w$x}", x, w = w),
        (20, 0) => format!("{:^+x}", x),
        (20, w) => format!("{:^+w$x}", x, w = w),
        (21, 0) => format!("{:^+0x}", x),
        (21, w) => format!("{:^+0w$x}", x, w = w),
        (22, 0) => format!("{:^+#x}", x),
        (22, w) => format!("{:^+#w$x}", x, w = w),
        (23, 0) => format!("{:^+#0x}", x),
        (23, w) => format!("{:^+#0w$x}", x, w = w),
        (24, 0) => format!("{:>x}", x),
        (24, w) => format!("{:>w$x}", x, w = w),
        (25, 0) => format!("{:>0x}", x),
        (25, w) => format!("{:>0w$x}", x, w = w),
        (26, 0) => format!("{:>#x}", x),
        (26, w) => format!("{:>#w$x}", x, w = w),
        (27, 0) => format!("{:>#0x}", x),
        (27, w) => format!("{:>#0w$x}", x, w = w),
        (28, 0) => format!("{:>+x}", x),
        (28, w) => format!("{:>+w$x}", x, w = w),
        (29, 0) => format!("{:>+0x}", x),
        (29, w) => format!("{:>+0w$x}", x, w = w),
        (30, 0) => format!("{:>+#x}", x),
        (30, w) => format!("{:>+#w$x}", x, w = w),
        (31, 0) => format!("{:>+#0x}", x),
        (31, w) => format!("{:>+#0w$x}", x, w = w),
        (32, 0) => format!("{:*<x}", x),
        (32, w) => format!("{:*<w$x}", x, w = w),
        (33, 0) => format!("{:*<0x}", x),
        (33, w) => format!("{:*<0w$x}", x, w = w),
        (34, 0) => format!("{:*<#x}", x),
        (34, w) => format!("{:*<#w$x}", x, w = w),
        (35, 0) => format!("{:*<#0x}", x),
        (35, w) => format!("{:*<#0w$x}", x, w = w),
        (36, 0) => format!("{:*<+x}", x),
        (36, w) => format!("{:*<+w$x}", x, w = w),
        (37, 0) => format!("{:*<+0x}", x),
        (37, w) => format!("{:*<+0w$x}", x, w = w),
        (38, 0) => format!("{:*<+#x}", x),
        (38, w) => format!("{:*<+#w$x}", x, w = w),
        (39, 0) => format!("{:*<+#0x}", x),
        (39, w) => format!("{:*<+#0w$x}", x, w = w),
        (40, 0) => format!("{:*^x}", x),
        (40, w) => format!("{:*^w$x}", x, w = w),
        (41, 0) => format!("{:*^0x}", x),
        (41, w) => format!("{:*^0w$x}", x, w = w),
        (42, 0) => format!("{:*^#x}", x),
        (42, w) => format!("{:*^#w$x}", x, w = w),
        (43, 0) => format!("{:*^#0x}", x),
        (43, w) => format!("{:*^#0w$x}", x, w = w),
        (44, 0) => format!("{:*^+x}", x),
        (44, w) => format!("{:*^+w$x}", x, w = w),
        (45, 0) => format!("{:*^+0x}", x),
        (45, w) => format!("{:*^+0w$x}", x, w = w),
        (46, 0) => format!("{:*^+#x}", x),
        (46, w) => format!("{:*^+#w$x}", x, w = w),
        (47, 0) => format!("{:*^+#0x}", x),
        (47, w) => format!("{:*^+#0w$x}", x, w = w),
        (48, 0) => format!("{:*>x}", x),
        (48, w) => format!("{:*>w$x}", x, w = w),
        (49, 0) => format!("{:*>0x}", x),
        (49, w) => format!("{:*>0w$x}", x, w = w),
        (50, 0) => format!("{:*>#x}", x),
        (50, w) => format!("{:*>#w$x}", x, w = w),
        (51, 0) => format!("{:*>#0x}", x),
        (51, w) => format!("{:*>#0w$x}", x, w = w),
        (52, 0) => format!("{:*>+x}", x),
        (52, w) => format!("{:*>+w$x}", x, w = w),
        (53, 0) => format!("{:*>+0x}", x),
        (53, w) => format!("{:*>+0w$x}", x, w = w),
        (54, 0) => format!("{:*>+#x}", x),
        (54, w) => format!("{:*>+#w$x}", x, w = w),
        (55, 0) => format!("{:*>+#0x}", x),
        (55, w) => format!("{:*>+#0w$x}", x, w = w),
        (56, 0) => format!("{:0<x}", x),
        (56, w) => format!("{:0<w$x}", x, w = w),
        (57, 0) => format!("{:0<0x}", x),
        (57, w) => format!("{:0<0w$x}", x, w = w),
        (58, 0) => format!("{:0<#x}", x),
        (58, w) => format!("{:0<#w$x}", x, w = w),
        (59, 0) => format!("{:0<#0x}", x),
        (59, w) => format!("{:0<#0w$x}", x, w = w),
        (60, 0) => format!("{:0<+x}", x),
        (60, w) => format!("{:0<+w$x}", x, w = w),
        (61, 0) => format!("{:0<+0x}", x),
        (61, w) => format!("{:0<+0w$x}", x, w = w),
        (62, 0) => format!("{:0<+#x}", x),
        (62, w) => format!("{:0<+#w$x}", x, w = w),
        (63, 0) => format!("{:0<+#0x}", x),
        (63, w) => format!("{:0<+#0w$x}", x, w = w),
        (64, 0) => format!("{:.0x}", x),
        (64, w) => format!("{:w$.0x}", x, w = w),
        (65, 0) => format!("{:+#0.3x}", x),
        (65, w) => format!("{:+#0w$.3x}", x, w = w),
        (66, 0) => format!("{:*^.2x}", x),
        (66, w) => format!("{:*^w$.2x}", x, w = w),
        (67, 0) => format!("{:<#.60x}", x),
        (67, w) => format!("{:<#w$.60x}", x, w = w),
        (68, 0) => format!("{:\u{e9}>x}", x),
        (68, w) => format!("{:\u{e9}>w$x}", x, w = w),
        (69, 0) => format!("{:\u{e9}^+#x}", x),
        (69, w) => format!("{:\u{e9}^+#w$x}", x, w = w),
        _ => unreachable!(),
    }
}

#[rustfmt::skip]
pub fn fmt_upper(x: &dyn UpperHex, spec: usize, width: usize) -> String {
    match (spec, width) {
        (0, 0) => format!("{:X}", x),
        (0, w) => format!("{:w$X}", x, w = w),
        (1, 0) => format!("{:0X}", x),
        (1, w) => format!("{:0w$X}", x, w = w),
        (2, 0) => format!("{:#X}", x),
        (2, w) => format!("{:#w$X}", x, w = w),
        (3, 0) => format!("{:#0X}", x),
        (3, w) => format!("{:#0w$X}", x, w = w),
        (4, 0) => format!("{:+X}", x),
        (4, w) => format!("{:+w$X}", x, w = w),
        (5, 0) => format!("{:+0X}", x),
        (5, w) => format!("{:+0w$X}", x, w = w),
        (6, 0) => format!("{:+#X}", x),
        (6, w) => format!("{:+#w$X}", x, w = w),
        (7, 0) => format!("{:+#0X}", x),
        (7, w) => format!("{:+#0w$X}", x, w = w),
        (8, 0) => format!("{:<X}", x),
        (8, w) => format!("{:<w$X}", x, w = w),
        (9, 0) => format!("{:<0X}", x),
        (9, w) => format!("{:<0w$X}", x, w = w),
        (10, 0) => format!("{:<#X}", x),
        (10, w) => format!("{:<#w$X}", x, w = w),
        (11, 0) => format!("{:<#0X}", x),
        (11, w) => format!("{:<#0w$X}", x, w = w),
        (12, 0) => format!("{:<+X}", x),
        (12, w) => format!("{:<+w$X}", x, w = w),
        (13, 0) => format!("{:<+0X}", x),
        (13, w) => format!("{:<+0w$X}", x, w = w),
        (14, 0) => format!("{:<+#X}", x),
        (14, w) => format!("{:<+#w$X}", x, w = w),
        (15, 0) => format!("{:<+#0X}", x),
        (15, w) => format!("{:<+#0w$X}", x, w = w),
        (16, 0) => format!("{:^X}", x),
        (16, w) => format!("{:^w$X}", x, w = w),
        (17, 0) => format!("{:^0X}", x),
        (17, w) => format!("{:^0w$X}", x, w = w),
        (18, 0) => format!("{:^#X}", x),
        (18, w) => format!("{:^#w$X}", x, w = w),
        (19, 0) => format!("{:^#0X}", x),
        (19, w) => format!("{:^#0w$X}", x, w = w),
        (20, 0) => format!("{:^+X}", x),
        (20, w) => format!("{:^+w$X}", x, w = w),
        (21, 0) => format!("{:^+0X}", x),
        (21, w) => format!("{:^+0w$X}", x, w = w),
        (22, 0) => format!("{:^+#X}", x),
        (22, w) => format!("{:^+#w$X}", x, w = w),
        (23, 0) => format!("{:^+#0X}", x),
        (23, w) => format!("{:^+#0w$X}", x, w = w),
        (24, 0) => format!("{:>X}", x),
        (24, w) => format!("{:>w$X}", x, w = w),
        (25, 0) => format!("{:>0X}", x),
        (25, w) => format!("{:>0w$X}", x, w = w),
        (26, 0) => format!("{:>#X}", x),
        (26, w) => format!("{:>#w$X}", x, w = w),
        (27, 0) => format!("{:>#0X}", x),
        (27, w) => format!("{:>#0w$X}", x, w = w),
        (28, 0) => format!("{:>+X}", x),
        (28, w) => format!("{:>+w$X}", x, w = w),
        (29, 0) => format!("{:>+0X}", x),
        (29, w) => format!("{:>+0w$X}", x, w = w),
        (30, 0) => format!("{:>+#X}", x),
        (30, w) => format!("{:>+#w$X}", x, w = w),
        (31, 0) => format!("{:>+#0X}", x),
        (31, w) => format!("{:>+#0w$X}", x, w = w),
        (32, 0) => format!("{:*<X}", x),
        (32, w) => format!("{:*<w$X}", x, w = w),
        (33, 0) => format!("{:*<0X}", x),
        (33, w) => format!("{:*<0w$X}", x, w = w),
        (34, 0) => format!("{:*<#X}", x),
        (34, w) => format!("{:*<#w$X}", x, w = w),
        (35, 0) => format!("{:*<#0X}", x),
        (35, w) => format!("{:*<#0w$X}", x, w = w),
        (36, 0) => format!("{:*<+X}", x),
        (36, w) => format!("{:*<+w$X}", x, w = w),
        (37, 0) => format!("{:*<+0X}", x),
        (37, w) => format!("{:*<+0w$X}", x, w = w),
        (38, 0) => format!("{:*<+#X}", x),
        (38, w) => format!("{:*<+#w$X}", x, w = w),
        (39, 0) => format!("{:*<+#0X}", x),
        (39, w) => format!("{:*<+#0w$X}", x, w = w),
        (40, 0) => format!("{:*^X}", x),
        (40, w) => format!("{:*^w$X}", x, w = w),
        (41, 0) => format!("{:*^0X}", x),
        (41, w) => format!("{:*^0w$X}", x, w = w),
        (42, 0) => format!("{:*^#X}", x),
        (42, w) => format!("{:*^#w$X}", x, w = w),
        (43, 0) => format!("{:*^#0X}", x),
        (43, w) => format!("{:*^#0w$X}", x, w = w),
        (44, 0) => format!("{:*^+X}", x),
        (44, w) => format!("{:*^+w$X}", x, w = w),
        (45, 0) => format!("{:*^+0X}", x),
        (45, w) => format!("{:*^+0w$X}", x, w = w),
        (46, 0) => format!("{:*^+#X}", x),
        (46, w) => format!("{:*^+#w$X}", x, w = w),
        (47, 0) => format!("{:*^+#0X}", x),
        (47, w) => format!("{:*^+#0w$X}", x, w = w),
        (48, 0) => format!("{:*>X}", x),
        (48, w) => format!("{:*>w$X}", x, w = w),
        (49, 0) => format!("{:*>0X}", x),
        (49, w) => format!("{:*>0w$X}", x, w = w),
        (50, 0) => format!("{:*>#X}", x),
        (50, w) => format!("{:*>#w$X}", x, w = w),
        (51, 0) => format!("{:*>#0X}", x),
        (51, w) => format!("{:*>#0w$X}", x, w = w),
        (52, 0) => format!("{:*>+X}", x),
        (52, w) => format!("{:*>+w$X}", x, w = w),
        (53, 0) => format!("{:*>+0X}", x),
        (53, w) => format!("{:*>+0w$X}", x, w = w),
        (54, 0) => format!("{:*>+#X}", x),
        (54, w) => format!("{:*>+#w$X}", x, w = w),
        (55, 0) => format!("{:*>+#0X}", x),
        (55, w) => format!("{:*>+#0w$X}", x, w = w),
        (56, 0) => format!("{:0<X}", x),
        (56, w) => format!("{:0<w$X}", x, w = w),
        (57, 0) => format!("{:0<0X}", x),
        (57, w) => format!("{:0<0w$X}", x, w = w),
        (58, 0) => format!("{:0<#X}", x),
        (58, w) => format!("{:0<#w$X}", x, w = w),
        (59, 0) => format!("{:0<#0X}", x),
        (59, w) => format!("{:0<#0w$X}", x, w = w),
        (60, 0) => format!("{:0<+X}", x),
        (60, w) => format!("{:0<+w$X}", x, w = w),
        (61, 0) => format!("{:0<+0X}", x),
        (61, w) => format!("{:0<+0w$X}", x, w = w),
        (62, 0) => format!("{:0<+#X}", x),
        (62, w) => format!("{:0<+#w$X}", x, w = w),
        (63, 0) => format!("{:0<+#0X}", x),
        (63, w) => format!("{:0<+#0w$X}", x, w = w),
        (64, 0) => format!("{:.0X}", x),
        (64, w) => format!("{:w$.0X}", x, w = w),
        (65, 0) => format!("{:+#0.3X}", x),
        (65, w) => format!("{:+#0w$.3X}", x, w = w),
        (66, 0) => format!("{:*^.2X}", x),
        (66, w) => format!("{:*^w$.2X}", x, w = w),
        (67, 0) => format!("{:<#.60X}", x),
        (67, w) => format!("{:<#w$.60X}", x, w = w),
        (68, 0) => format!("{:\u{e9}>X}", x),
        (68, w) => format!("{:\u{e9}>w$X}", x, w = w),
        (69, 0) => format!("{:\u{e9}^+#X}", x),
        (69, w) => format!("{:\u{e9}^+#w$X}", x, w = w),
        _ => unreachable!(),
    }
}

/// How an integer with digits `text` is formatted.
pub fn ref_fmt(text: &str, kind: u8, spec: usize, width: usize) -> String {
    let (align, plus, prefix, zero) = SPECS[spec];
    let mut head = String::new();
    if plus {
        head.push('+');
    }
    if prefix && kind != 0 {
        head.push_str("0x");
    }
    let body = if kind == 2 { text.to_uppercase() } else { text.to_string() };
    let len = head.len() + body.len();
    if len >= width {
        return head + &body;
    }
    let pad = width - len;
    if zero {
        // overrules fill and alignment
        return head + &"0".repeat(pad) + &body;
    }
    let (fill, dir) = match align.chars().collect::<Vec<_>>()[..] {
        [] => (' ', '>'),
        [d] => (' ', d),
        [f, d] => (f, d),
        _ => unreachable!(),
    };
    let (left, right) = match dir {
        '<' => (0, pad),
        '^' => (pad / 2, pad - pad / 2),
        _ => (pad, 0),
    };
    let rep = |n: usize| std::iter::repeat(fill).take(n).collect::<String>();
    rep(left) + &head + &body + &rep(right)
}

/// A writer that goes wrong, or does more than write
pub struct Sink<'a> {
    pub text: String,
    /// an error, or a panic, once more than so many bytes have come
    pub room: usize,
    pub panics: bool,
    /// an error once, after so many parts
    pub skip: usize,
    pub each: &'a mut dyn FnMut(),
}
impl std::fmt::Write for Sink<'_> {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        (self.each)();
        if self.skip < usize::MAX - 1 {
            self.skip = self.skip.wrapping_sub(1);
            if self.skip == usize::MAX {
                self.skip = usize::MAX - 1;
                return Err(std::fmt::Error);
            }
        }
        if self.text.len() + s.len() > self.room {
            if self.panics {
                panic!("writer");
            }
            return Err(std::fmt::Error);
        }
        self.text.push_str(s);
        Ok(())
    }
}

/// The value of a text, or `None` if it is not a number.
pub fn ref_parse<X: Radix>(s: &str) -> Option<Vec<u64>> {
    let (text, base, group) = match s.strip_prefix("0x") {
        Some(t) => (t, 16u32, 12),
        None => (s, 10u32, 15),
    };
    let d: Option<Vec<u64>> = text.chars().map(|c| if c.is_ascii() { c.to_digit(base).map(|x| x as u64) } else { None }).collect();
    let d = d?;
    if d.is_empty() {
        return None;
    }
    if d.len() >= 20_000 {
        let low_first: Vec<u64> = d.iter().rev().copied().collect();
        if let Some(v) = refn::join_digits::<X>(&low_first, base as u64) {
            return Some(v);
        }
    }
    let mut out = vec![];
    for g in d.chunks(group) {
        let mut v = 0u64;
        let mut p = 1u64;
        for &x in g {
            v = v * base as u64 + x;
            p *= base as u64;
        }
        out = refn::mul_word_add::<X>(&out, p, v);
    }
    Some(out)
}

/// Check the reference for formatting against the formatting of built-in integers.
pub fn self_check() {
    let mut n = 0;
    for v in [0u128, 1, 9, 10, 255, 4096, 123456789, u64::MAX as u128, u128::MAX, 0xabcdef] {
        for s in 0..SPECS.len() {
            for w in [0, 1, 2, 3, 4, 5, 7, 12, 33, 41, 50] {
                assert_eq!(ref_fmt(&format!("{}", v), 0, s, w), fmt_display(&v, s, w));
                assert_eq!(ref_fmt(&format!("{:x}", v), 1, s, w), fmt_lower(&v, s, w));
                assert_eq!(ref_fmt(&format!("{:x}", v), 2, s, w), fmt_upper(&v, s, w));
                n += 3;
            }
        }
    }
    assert!(n > 0);
}
