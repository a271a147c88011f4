//! C27 typed setters and text builders: each stands for one ODF attribute.
use crate::engine::*;
use crate::gen;
use crate::model::*;
use crate::xmlp::{self, Elem};
use icu_locale_core::{locale, Locale};
use spreadsheet_ods::color::Rgb;
use spreadsheet_ods::draw::{Annotation, DrawFrame, DrawFrameContent, DrawImage};
use spreadsheet_ods::format::ValueFormatTrait;
use spreadsheet_ods::style::tabstop::TabStop;
use spreadsheet_ods::style::units::*;
use spreadsheet_ods::style::*;
use spreadsheet_ods::text::*;
use spreadsheet_ods::xlink::*;
use spreadsheet_ods::xmltree::XmlTag;
use spreadsheet_ods::*;
use std::collections::BTreeMap;

pub fn c27() -> Check {
    Check {
        id: "C27",
        rule: "random sequences of typed setter calls (every setter of cell, column, row, table, paragraph, text and graphic styles, page styles, header and footer styles, the seven kinds of value formats, fonts, tab-stops, annotations, frames and images; random lengths, angles, percentages, colours, borders, enumeration values, texts, locales), written in a random format; the attributes found in the file by an independent XML parser must be exactly the ones the ODF standard has for the calls, the last call for an attribute winning; text builders against the elements they stand for; histories of calls on element trees against a tree of the parser, in memory and in the file; call sequences on annotations, frames and images against a model; non-trivial: at least 2 attributes or 3 calls",
        parts: vec![
            Part { name: "setters", quick: 150_000, thorough: 800_000, run: setters },
            Part { name: "text", quick: 30_000, thorough: 400_000, run: texts },
            Part { name: "trees", quick: 20_000, thorough: 300_000, run: trees },
            Part { name: "lengths", quick: 20_000, thorough: 400_000, run: lengths },
            Part { name: "drawings", quick: 20_000, thorough: 200_000, run: drawings },
        ],
        probes: vec![],
    }
}

type Attrs = BTreeMap<String, String>;
#[derive(Default, Debug, Clone)]
struct Out {
    want: BTreeMap<&'static str, Attrs>,
    calls: Vec<&'static str>,
}
impl Out {
    fn set(&mut self, g: &'static str, a: &str, v: impl Into<String>) {
        self.want.entry(g).or_default().insert(a.into(), v.into());
    }
    fn clear(&mut self, g: &'static str, a: &str) {
        self.want.entry(g).or_default().remove(a);
    }
}
type Op<T> = (&'static str, fn(&mut T, &mut Src, &mut Out));

// ------------------------------------------------------------ values
fn num(s: &mut Src) -> f64 {
    match s.u(4) {
        0 => s.u(30) as f64,
        1 => s.u(10_000) as f64 / 100.0,
        2 => s.u(1_000_000) as f64 / 1000.0,
        _ => gen::f64_small(s).abs(),
    }
}
fn unit(s: &mut Src, v: f64) -> (Length, String) {
    match s.u(6) {
        0 => (Length::Cm(v), format!("{}cm", v)),
        1 => (Length::Mm(v), format!("{}mm", v)),
        2 => (Length::In(v), format!("{}in", v)),
        3 => (Length::Pt(v), format!("{}pt", v)),
        4 => (Length::Pc(v), format!("{}pc", v)),
        _ => (Length::Em(v), format!("{}em", v)),
    }
}
fn plen(s: &mut Src) -> (Length, String) {
    let v = num(s);
    unit(s, v)
}
fn len(s: &mut Src) -> (Length, String) {
    let v = if s.pct(30) { -num(s) } else { num(s) };
    unit(s, v)
}
fn perc(s: &mut Src) -> (Percent, String) {
    let v = num(s);
    (Percent::Percent(v), format!("{}%", v))
}
fn angle(s: &mut Src) -> (Angle, String) {
    let v = if s.pct(20) { -num(s) } else { num(s) };
    match s.u(3) {
        0 => (Angle::Deg(v), format!("{}deg", v)),
        1 => (Angle::Grad(v), format!("{}grad", v)),
        _ => (Angle::Rad(v), format!("{}rad", v)),
    }
}
fn color(s: &mut Src) -> (Rgb<u8>, String) {
    let (r, g, b) = (s.u(256) as u8, s.u(256) as u8, s.u(256) as u8);
    (Rgb::new(r, g, b), format!("#{:02x}{:02x}{:02x}", r, g, b))
}
fn border_kind(s: &mut Src) -> (Border, &'static str) {
    use Border::*;
    s.pickc(&[
        (None, "none"), (Hidden, "hidden"), (Dotted, "dotted"), (Dashed, "dashed"), (Solid, "solid"), (Double, "double"), (Groove, "groove"), (Ridge, "ridge"),
        (Inset, "inset"), (Outset, "outset"),
    ])
}
fn boolean(s: &mut Src) -> (bool, String) {
    let b = s.coin();
    (b, if b { "true" } else { "false" }.into())
}
fn int(s: &mut Src) -> (u32, String) {
    let v = if s.pct(10) { s.r32(0, u32::MAX - 1) } else { s.r32(0, 300) };
    (v, v.to_string())
}
fn int8(s: &mut Src) -> (u8, String) {
    let v = s.u(256) as u8;
    (v, v.to_string())
}
fn txt(s: &mut Src) -> (String, String) {
    let v = gen::line1(s);
    (v.clone(), v)
}
fn chr(s: &mut Src) -> (char, String) {
    let c = s.pickc(&['a', '.', '-', '_', '<', '&', '"', '\'', '*', 'ä', '€', '…', '日', '😀']);
    (c, c.to_string())
}
fn fsize(s: &mut Src) -> (FontSize, String) {
    if s.coin() { let (v, t) = plen(s); (if s.coin() { v.into() } else { FontSize::Length(v) }, t) } else { let (v, t) = perc(s); (if s.coin() { v.into() } else { FontSize::Percent(v) }, t) }
}
fn margin(s: &mut Src) -> (Margin, String) {
    if s.coin() { let (v, t) = plen(s); (if s.coin() { v.into() } else { Margin::Length(v) }, t) } else { let (v, t) = perc(s); (if s.coin() { v.into() } else { Margin::Percent(v) }, t) }
}
fn indent(s: &mut Src) -> (Indent, String) {
    if s.coin() { let (v, t) = len(s); (if s.coin() { v.into() } else { Indent::Length(v) }, t) } else { let (v, t) = perc(s); (if s.coin() { v.into() } else { Indent::Percent(v) }, t) }
}
fn lenperc(s: &mut Src) -> (LengthPercent, String) {
    if s.coin() { let (v, t) = plen(s); (if s.coin() { v.into() } else { LengthPercent::Length(v) }, t) } else { let (v, t) = perc(s); (if s.coin() { v.into() } else { LengthPercent::Percent(v) }, t) }
}
fn lheight(s: &mut Src) -> (LineHeight, String) {
    match s.u(3) {
        0 => (LineHeight::Normal, "normal".into()),
        1 => { let (v, t) = plen(s); (if s.coin() { v.into() } else { LineHeight::Length(v) }, t) }
        _ => { let (v, t) = perc(s); (if s.coin() { v.into() } else { LineHeight::Percent(v) }, t) }
    }
}
fn lspacing(s: &mut Src) -> (LetterSpacing, String) {
    if s.coin() { (LetterSpacing::Normal, "normal".into()) } else { let (v, t) = len(s); (if s.coin() { v.into() } else { LetterSpacing::Length(v) }, t) }
}
fn lwidth(s: &mut Src) -> (LineWidth, String) {
    match s.u(4) {
        0 => { let (v, t) = perc(s); (if s.coin() { v.into() } else { LineWidth::Percent(v) }, t) }
        1 => { let (v, t) = plen(s); (if s.coin() { v.into() } else { LineWidth::Length(v) }, t) }
        2 => { let (v, t) = int(s); (LineWidth::Int(v), t) }
        _ => en(s, &[(LineWidth::Auto, "auto"), (LineWidth::Bold, "bold"), (LineWidth::Normal, "normal"), (LineWidth::Dash, "dash"), (LineWidth::Thin, "thin"), (LineWidth::Medium, "medium"), (LineWidth::Thick, "thick")]),
    }
}
fn ladder(s: &mut Src) -> (HyphenationLadderCount, String) {
    if s.coin() { (HyphenationLadderCount::NoLimit, "no-limit".into()) } else { let (v, t) = int(s); (HyphenationLadderCount::Count(v), t) }
}
fn pageno(s: &mut Src) -> (PageNumber, String) {
    if s.coin() { (PageNumber::Auto, "auto".into()) } else { let (v, t) = int(s); (PageNumber::Number(v), t) }
}
fn glyph(s: &mut Src) -> (GlyphOrientation, String) {
    match s.u(3) {
        0 => (GlyphOrientation::Auto, "auto".into()),
        1 => (GlyphOrientation::Zero, "0".into()),
        _ => { let (v, t) = angle(s); (GlyphOrientation::Angle(v), t) }
    }
}
fn relscale(s: &mut Src) -> (RelativeScale, String) {
    match s.u(3) {
        0 => (RelativeScale::Scale, "scale".into()),
        1 => (RelativeScale::ScaleMin, "scale-min".into()),
        _ => { let (v, t) = perc(s); (RelativeScale::Percent(v), t) }
    }
}
fn en<T: Clone>(s: &mut Src, v: &[(T, &'static str)]) -> (T, String) {
    let (a, b) = s.pickc(v);
    (a, b.to_string())
}
fn pbreak(s: &mut Src) -> (PageBreak, String) {
    en(s, &[(PageBreak::Auto, "auto"), (PageBreak::Column, "column"), (PageBreak::Page, "page")])
}
fn keep(s: &mut Src) -> (TextKeep, String) {
    en(s, &[(TextKeep::Auto, "auto"), (TextKeep::Always, "always")])
}
fn wmode(s: &mut Src) -> (WritingMode, String) {
    use WritingMode::*;
    en(s, &[(LrTb, "lr-tb"), (RlTb, "rl-tb"), (TbRl, "tb-rl"), (TbLr, "tb-lr"), (Lr, "lr"), (Rl, "rl"), (Tb, "tb"), (Page, "page")])
}
fn fstyle(s: &mut Src) -> (FontStyle, String) {
    en(s, &[(FontStyle::Normal, "normal"), (FontStyle::Italic, "italic"), (FontStyle::Oblique, "oblique")])
}
fn fvariant(s: &mut Src) -> (FontVariant, String) {
    en(s, &[(FontVariant::Normal, "normal"), (FontVariant::SmallCaps, "small-caps")])
}
fn fweight(s: &mut Src) -> (FontWeight, String) {
    use FontWeight::*;
    en(s, &[(Normal, "normal"), (Bold, "bold"), (W100, "100"), (W200, "200"), (W300, "300"), (W400, "400"), (W500, "500"), (W600, "600"), (W700, "700"), (W800, "800"), (W900, "900")])
}
fn lmode(s: &mut Src) -> (LineMode, String) {
    en(s, &[(LineMode::Continuous, "continuous"), (LineMode::SkipWhiteSpace, "skip-white-space")])
}
fn lstyle(s: &mut Src) -> (LineStyle, String) {
    use LineStyle::*;
    en(s, &[(Dash, "dash"), (DotDash, "dot-dash"), (DotDotDash, "dot-dot-dash"), (Dotted, "dotted"), (LongDash, "long-dash"), (None, "none"), (Solid, "solid"), (Wave, "wave")])
}
fn ltype(s: &mut Src) -> (LineType, String) {
    en(s, &[(LineType::None, "none"), (LineType::Single, "single"), (LineType::Double, "double")])
}
fn loc(s: &mut Src) -> Locale {
    s.pickc(&[locale!("de-AT"), locale!("en-US"), locale!("cs"), locale!("zh-Hant-TW"), locale!("sr-Latn"), locale!("ja-JP"), Locale::UNKNOWN])
}
fn cref(s: &mut Src) -> (CellRef, String) {
    let (r, c) = (s.r32(0, 99), s.r32(0, 25));
    let col = (b'A' + c as u8) as char;
    if s.coin() {
        (CellRef::remote("Tab1", r, c), format!("Tab1.{}{}", col, r + 1))
    } else {
        (CellRef::local(r, c), format!(".{}{}", col, r + 1))
    }
}

// ------------------------------------------------------------ tables of setters
macro_rules! op {
    ($v:ident, $T:ty, $g:literal, $m:ident, $a:literal, $gen:expr) => {
        $v.push((stringify!($m), |st: &mut $T, s: &mut Src, o: &mut Out| {
            #[allow(clippy::redundant_closure_call)]
            let (x, t) = ($gen)(s);
            st.$m(x);
            o.set($g, $a, t);
        }));
    };
}
macro_rules! f {
    ($v:ident, $T:ty, $n:literal, $e:expr) => {
        $v.push(($n, $e as fn(&mut $T, &mut Src, &mut Out)));
    };
}
macro_rules! common {
    ($v:ident, $T:ty, $R:ident) => {
        op!($v, $T, "", set_auto_update, "style:auto-update", boolean);
        op!($v, $T, "", set_display_name, "style:display-name", txt);
        f!($v, $T, "set_class", |st, s, o| { let (x, t) = txt(s); st.set_class(&x); o.set("", "style:class", t); });
        f!($v, $T, "set_parent_style", |st, s, o| { let n = gen::name(s); st.set_parent_style(&$R::from(n.as_str())); o.set("", "style:parent-style-name", n); });
    };
}
macro_rules! bord {
    ($v:ident, $T:ty, $g:literal, $($m:ident $a:literal),*) => { $(
        f!($v, $T, $a, |st, s, o| {
            let ((w, wt), (b, bt), (c, ct)) = (plen(s), border_kind(s), color(s));
            st.$m(w, b, c);
            o.set($g, $a, format!("{} {} {}", wt, bt, ct));
        });
    )* };
}
macro_rules! blw {
    ($v:ident, $T:ty, $g:literal, $($m:ident $a:literal),*) => { $(
        f!($v, $T, $a, |st, s, o| {
            let ((i, it), (d, dt), (u, ut)) = (plen(s), plen(s), plen(s));
            st.$m(i, d, u);
            o.set($g, $a, format!("{} {} {}", it, dt, ut));
        });
    )* };
}
macro_rules! shad {
    ($v:ident, $T:ty, $g:literal, $m:ident $a:literal) => {
        f!($v, $T, $a, |st, s, o| {
            let ((x, xt), (y, yt), (c, ct)) = (len(s), len(s), color(s));
            if s.coin() {
                st.$m(x, y, None, c);
                o.set($g, $a, format!("{} {} {}", ct, xt, yt));
            } else {
                let (b, bt) = plen(s);
                st.$m(x, y, Some(b), c);
                o.set($g, $a, format!("{} {} {} {}", ct, xt, yt, bt));
            }
        });
    };
}
macro_rules! boxed {
    ($v:ident, $T:ty, $g:literal) => {
        op!($v, $T, $g, set_background_color, "fo:background-color", color);
        bord!($v, $T, $g, set_border "fo:border", set_border_left "fo:border-left", set_border_right "fo:border-right", set_border_top "fo:border-top", set_border_bottom "fo:border-bottom");
        op!($v, $T, $g, set_padding, "fo:padding", plen);
        op!($v, $T, $g, set_padding_left, "fo:padding-left", plen);
        op!($v, $T, $g, set_padding_right, "fo:padding-right", plen);
        op!($v, $T, $g, set_padding_top, "fo:padding-top", plen);
        op!($v, $T, $g, set_padding_bottom, "fo:padding-bottom", plen);
        blw!($v, $T, $g, set_border_line_width "style:border-line-width", set_border_line_width_left "style:border-line-width-left", set_border_line_width_right "style:border-line-width-right", set_border_line_width_top "style:border-line-width-top", set_border_line_width_bottom "style:border-line-width-bottom");
        shad!($v, $T, $g, set_shadow "style:shadow");
    };
}
macro_rules! margins {
    ($v:ident, $T:ty, $g:literal) => {
        op!($v, $T, $g, set_margin, "fo:margin", margin);
        op!($v, $T, $g, set_margin_left, "fo:margin-left", margin);
        op!($v, $T, $g, set_margin_right, "fo:margin-right", margin);
        op!($v, $T, $g, set_margin_top, "fo:margin-top", margin);
        op!($v, $T, $g, set_margin_bottom, "fo:margin-bottom", margin);
    };
}
macro_rules! breaks {
    ($v:ident, $T:ty, $g:literal) => {
        op!($v, $T, $g, set_break_before, "fo:break-before", pbreak);
        op!($v, $T, $g, set_break_after, "fo:break-after", pbreak);
    };
}
macro_rules! para {
    ($v:ident, $T:ty) => {
        breaks!($v, $T, "style:paragraph-properties");
        op!($v, $T, "style:paragraph-properties", set_hyphenation_keep, "fo:hyphenation-keep", |s| en(s, &[(Hyphenation::Auto, "auto"), (Hyphenation::Page, "page")]));
        op!($v, $T, "style:paragraph-properties", set_hyphenation_ladder_count, "fo:hyphenation-ladder-count", ladder);
        op!($v, $T, "style:paragraph-properties", set_keep_together, "fo:keep-together", keep);
        op!($v, $T, "style:paragraph-properties", set_keep_with_next, "fo:keep-with-next", keep);
        op!($v, $T, "style:paragraph-properties", set_line_height, "fo:line-height", lheight);
        margins!($v, $T, "style:paragraph-properties");
        op!($v, $T, "style:paragraph-properties", set_orphans, "fo:orphans", int);
        op!($v, $T, "style:paragraph-properties", set_widows, "fo:widows", int);
        op!($v, $T, "style:paragraph-properties", set_text_align, "fo:text-align", |s| {
            use TextAlign::*;
            en(s, &[(Start, "start"), (Center, "center"), (End, "end"), (Justify, "justify"), (Inside, "inside"), (Outside, "outside"), (Left, "left"), (Right, "right")])
        });
        op!($v, $T, "style:paragraph-properties", set_text_align_last, "fo:text-align-last", |s| en(s, &[(TextAlignLast::Start, "start"), (TextAlignLast::Center, "center"), (TextAlignLast::Justify, "justify")]));
        op!($v, $T, "style:paragraph-properties", set_text_indent, "fo:text-indent", indent);
        op!($v, $T, "style:paragraph-properties", set_auto_text_indent, "style:auto-text-indent", boolean);
        op!($v, $T, "style:paragraph-properties", set_background_transpareny, "style:background-transparency", perc);
        op!($v, $T, "style:paragraph-properties", set_contextual_spacing, "style:contextual-spacing", boolean);
        op!($v, $T, "style:paragraph-properties", set_font_independent_line_spacing, "style:font-independent-line-spacing", boolean);
        op!($v, $T, "style:paragraph-properties", set_join_border, "style:join-border", boolean);
        op!($v, $T, "style:paragraph-properties", set_justify_single_word, "style:justify-single-word", boolean);
        op!($v, $T, "style:paragraph-properties", set_line_break, "style:line-break", |s| en(s, &[(LineBreak::Normal, "normal"), (LineBreak::Strict, "strict")]));
        op!($v, $T, "style:paragraph-properties", set_line_height_at_least, "style:line-height-at-least", plen);
        op!($v, $T, "style:paragraph-properties", set_line_spacing, "style:line-spacing", len);
        op!($v, $T, "style:paragraph-properties", set_page_number, "style:page-number", pageno);
        op!($v, $T, "style:paragraph-properties", set_punctuation_wrap, "style:punctuation-wrap", |s| en(s, &[(PunctuationWrap::Hanging, "hanging"), (PunctuationWrap::Simple, "simple")]));
        op!($v, $T, "style:paragraph-properties", set_register_true, "style:register-true", boolean);
        op!($v, $T, "style:paragraph-properties", set_snap_to_layout_grid, "style:snap-to-layout-grid", boolean);
        op!($v, $T, "style:paragraph-properties", set_tab_stop_distance, "style:tab-stop-distance", plen);
        op!($v, $T, "style:paragraph-properties", set_text_autospace, "style:text-autospace", |s| en(s, &[(TextAutoSpace::IdeographAlpha, "ideograph-alpha"), (TextAutoSpace::None, "none")]));
        op!($v, $T, "style:paragraph-properties", set_vertical_align_para, "style:vertical-align", |s| {
            use ParaAlignVertical::*;
            en(s, &[(Top, "top"), (Middle, "middle"), (Bottom, "bottom"), (Auto, "auto"), (Baseline, "baseline")])
        });
        op!($v, $T, "style:paragraph-properties", set_writing_mode_automatic, "style:writing-mode-automatic", boolean);
        op!($v, $T, "style:paragraph-properties", set_line_number, "text:line-number", int);
        op!($v, $T, "style:paragraph-properties", set_number_lines, "text:number-lines", boolean);
    };
}
macro_rules! locale_ops {
    ($v:ident, $T:ty, $m:ident $l:literal $c:literal $sc:literal) => {
        f!($v, $T, $l, |st, s, o| {
            let l = loc(s);
            st.$m(l.clone());
            for a in [$l, $c, $sc] {
                o.clear("style:text-properties", a);
            }
            if l != Locale::UNKNOWN {
                let t = l.to_string();
                for (i, p) in t.split('-').enumerate() {
                    let a = if i == 0 { $l } else if p.len() == 4 { $sc } else { $c };
                    o.set("style:text-properties", a, p);
                }
            }
        });
    };
}
macro_rules! script_ops {
    ($v:ident, $T:ty, $name:ident $na:literal, $size:ident $sa:literal, $rel:ident $ra:literal, $style:ident $ya:literal, $it:ident, $weight:ident $wa:literal, $bold:ident, $attr:ident) => {
        op!($v, $T, "style:text-properties", $name, $na, txt);
        op!($v, $T, "style:text-properties", $size, $sa, fsize);
        op!($v, $T, "style:text-properties", $rel, $ra, fsize);
        op!($v, $T, "style:text-properties", $style, $ya, fstyle);
        op!($v, $T, "style:text-properties", $weight, $wa, fweight);
        f!($v, $T, "italic", |st, _s, o| { st.$it(); o.set("style:text-properties", $ya, "italic"); });
        f!($v, $T, "bold", |st, _s, o| { st.$bold(); o.set("style:text-properties", $wa, "bold"); });
        f!($v, $T, "font_attr", |st, s, o| {
            let ((z, zt), b, i) = (fsize(s), s.coin(), s.coin());
            st.$attr(z, b, i);
            o.set("style:text-properties", $sa, zt);
            if b { o.set("style:text-properties", $wa, "bold"); }
            if i { o.set("style:text-properties", $ya, "italic"); }
        });
    };
}
macro_rules! line_ops {
    ($v:ident, $T:ty, $c:ident $ca:literal, $m:ident $ma:literal, $st:ident $sa:literal, $t:ident $ta:literal, $w:ident $wa:literal) => {
        op!($v, $T, "style:text-properties", $c, $ca, color);
        op!($v, $T, "style:text-properties", $m, $ma, lmode);
        op!($v, $T, "style:text-properties", $st, $sa, lstyle);
        op!($v, $T, "style:text-properties", $t, $ta, ltype);
        op!($v, $T, "style:text-properties", $w, $wa, lwidth);
    };
}
macro_rules! text {
    ($v:ident, $T:ty) => {
        locale_ops!($v, $T, set_locale "fo:language" "fo:country" "fo:script");
        text_base!($v, $T);
    };
}
macro_rules! text_base {
    ($v:ident, $T:ty) => {
        op!($v, $T, "style:text-properties", set_color, "fo:color", color);
        locale_ops!($v, $T, set_locale_asian "style:language-asian" "style:country-asian" "style:script-asian");
        locale_ops!($v, $T, set_locale_complex "style:language-complex" "style:country-complex" "style:script-complex");
        script_ops!($v, $T, set_font_name "style:font-name", set_font_size "fo:font-size", set_font_size_rel "style:font-size-rel", set_font_style "fo:font-style", set_font_italic, set_font_weight "fo:font-weight", set_font_bold, set_font_attr);
        script_ops!($v, $T, set_font_name_asian "style:font-name-asian", set_font_size_asian "style:font-size-asian", set_font_size_rel_asian "style:font-size-rel-asian", set_font_style_asian "style:font-style-asian", set_font_italic_asian, set_font_weight_asian "style:font-weight-asian", set_font_bold_asian, set_font_attr_asian);
        script_ops!($v, $T, set_font_name_complex "style:font-name-complex", set_font_size_complex "style:font-size-complex", set_font_size_rel_complex "style:font-size-rel-complex", set_font_style_complex "style:font-style-complex", set_font_italic_complex, set_font_weight_complex "style:font-weight-complex", set_font_bold_complex, set_font_attr_complex);
        op!($v, $T, "style:text-properties", set_font_variant, "fo:font-variant", fvariant);
        op!($v, $T, "style:text-properties", set_hyphenate, "fo:hyphenate", boolean);
        op!($v, $T, "style:text-properties", set_hyphenation_push_char_count, "fo:hyphenation-push-char-count", int);
        op!($v, $T, "style:text-properties", set_hyphenation_remain_char_count, "fo:hyphenation-remain-char-count", int);
        op!($v, $T, "style:text-properties", set_letter_spacing, "fo:letter-spacing", lspacing);
        shad!($v, $T, "style:text-properties", set_text_shadow "fo:text-shadow");
        op!($v, $T, "style:text-properties", set_text_transform, "fo:text-transform", |s| {
            use TextTransform::*;
            en(s, &[(None, "none"), (Lowercase, "lowercase"), (Uppercase, "uppercase"), (Capitalize, "capitalize")])
        });
        op!($v, $T, "style:text-properties", set_font_relief, "style:font-relief", |s| en(s, &[(TextRelief::None, "none"), (TextRelief::Embossed, "embossed"), (TextRelief::Engraved, "engraved")]));
        f!($v, $T, "style:text-position", |st, s, o| {
            let (p, pt) = match s.u(3) {
                0 => (TextPosition::Sub, "sub".to_string()),
                1 => (TextPosition::Super, "super".to_string()),
                _ => { let (v, t) = perc(s); (if s.coin() { v.into() } else { TextPosition::Percent(v) }, t) }
            };
            if s.coin() {
                st.set_text_position(p, None);
                o.set("style:text-properties", "style:text-position", pt);
            } else {
                let (v, t) = perc(s);
                st.set_text_position(p, Some(v));
                o.set("style:text-properties", "style:text-position", format!("{} {}", pt, t));
            }
        });
        op!($v, $T, "style:text-properties", set_letter_kerning, "style:letter-kerning", boolean);
        op!($v, $T, "style:text-properties", set_text_combine, "style:text-combine", |s| en(s, &[(TextCombine::None, "none"), (TextCombine::Letters, "letters"), (TextCombine::Lines, "lines")]));
        op!($v, $T, "style:text-properties", set_text_combine_start_char, "style:text-combine-start-char", chr);
        op!($v, $T, "style:text-properties", set_text_combine_end_char, "style:text-combine-end-char", chr);
        f!($v, $T, "style:text-emphasize", |st, s, o| {
            use TextEmphasize::*;
            let (e, et) = s.pickc(&[(None, "none"), (Accent, "accent"), (Circle, "circle"), (Disc, "disc"), (Dot, "dot")]);
            let (p, pt) = s.pickc(&[(TextEmphasizePosition::Above, "above"), (TextEmphasizePosition::Below, "below")]);
            st.set_text_emphasize(e, p);
            o.set("style:text-properties", "style:text-emphasize", format!("{} {}", et, pt));
        });
        line_ops!($v, $T, set_text_line_through_color "style:text-line-through-color", set_text_line_through_mode "style:text-line-through-mode", set_text_line_through_style "style:text-line-through-style", set_text_line_through_type "style:text-line-through-type", set_text_line_through_width "style:text-line-through-width");
        line_ops!($v, $T, set_text_overline_color "style:text-overline-color", set_text_overline_mode "style:text-overline-mode", set_text_overline_style "style:text-overline-style", set_text_overline_type "style:text-overline-type", set_text_overline_width "style:text-overline-width");
        line_ops!($v, $T, set_text_underline_color "style:text-underline-color", set_text_underline_mode "style:text-underline-mode", set_text_underline_style "style:text-underline-style", set_text_underline_type "style:text-underline-type", set_text_underline_width "style:text-underline-width");
        op!($v, $T, "style:text-properties", set_text_line_through_text, "style:text-line-through-text", txt);
        f!($v, $T, "style:text-line-through-text-style", |st, s, o| { let n = gen::name(s); st.set_text_line_through_text_style(TextStyleRef::from(n.as_str())); o.set("style:text-properties", "style:text-line-through-text-style", n); });
        op!($v, $T, "style:text-properties", set_font_text_outline, "style:text-outline", boolean);
        op!($v, $T, "style:text-properties", set_use_window_font_color, "style:use-window-font-color", boolean);
        op!($v, $T, "style:text-properties", set_text_condition, "text:condition", |_s| (TextCondition::None, "none"));
        op!($v, $T, "style:text-properties", set_display, "text:display", |s| en(s, &[(TextDisplay::None, "none"), (TextDisplay::Condition, "condition"), (TextDisplay::True, "true")]));
    };
}
macro_rules! rot_scale {
    ($v:ident, $T:ty) => {
        op!($v, $T, "style:text-properties", set_rotation_scale, "style:text-rotation-scale", |s| en(s, &[(RotationScale::Fixed, "fixed"), (RotationScale::LineHeight, "line-height")]));
    };
}

fn cell_ops() -> Vec<Op<CellStyle>> {
    let mut v: Vec<Op<CellStyle>> = vec![];
    common!(v, CellStyle, CellStyleRef);
    f!(v, CellStyle, "set_value_format", |st, s, o| { let n = gen::name(s); st.set_value_format(&ValueFormatRef::from(n.as_str())); o.set("", "style:data-style-name", n); });
    boxed!(v, CellStyle, "style:table-cell-properties");
    op!(v, CellStyle, "style:table-cell-properties", set_wrap_option, "fo:wrap-option", |s| en(s, &[(WrapOption::NoWrap, "no-wrap"), (WrapOption::Wrap, "wrap")]));
    op!(v, CellStyle, "style:table-cell-properties", set_cell_protect, "style:cell-protect", |s| {
        use CellProtect::*;
        en(s, &[(FormulaHidden, "formula-hidden"), (HiddenAndProtected, "hidden-and-protected"), (None, "none"), (Protected, "protected"), (ProtectedFormulaHidden, "protected formula-hidden")])
    });
    op!(v, CellStyle, "style:table-cell-properties", set_decimal_places, "style:decimal-places", int8);
    bord!(v, CellStyle, "style:table-cell-properties", set_diagonal_bl_tr "style:diagonal-bl-tr", set_diagonal_tl_br "style:diagonal-tl-br");
    blw!(v, CellStyle, "style:table-cell-properties", set_diagonal_bl_tr_widths "style:diagonal-bl-tr-widths", set_diagonal_tl_br_widths "style:diagonal-tl-br-widths");
    op!(v, CellStyle, "style:table-cell-properties", set_direction, "style:direction", |s| en(s, &[(WritingDirection::Ltr, "ltr"), (WritingDirection::Ttb, "ttb")]));
    op!(v, CellStyle, "style:table-cell-properties", set_glyph_orientation_vertical, "style:glyph-orientation-vertical", glyph);
    op!(v, CellStyle, "style:table-cell-properties", set_print_content, "style:print-content", boolean);
    op!(v, CellStyle, "style:table-cell-properties", set_repeat_content, "style:repeat-content", boolean);
    op!(v, CellStyle, "style:table-cell-properties", set_rotation_align, "style:rotation-align", |s| en(s, &[(RotationAlign::None, "none"), (RotationAlign::Bottom, "bottom"), (RotationAlign::Top, "top"), (RotationAlign::Center, "center")]));
    op!(v, CellStyle, "style:table-cell-properties", set_rotation_angle, "style:rotation-angle", angle);
    op!(v, CellStyle, "style:table-cell-properties", set_shrink_to_fit, "style:shrink-to-fit", boolean);
    op!(v, CellStyle, "style:table-cell-properties", set_text_align_source, "style:text-align-source", |s| en(s, &[(TextAlignSource::Fix, "fix"), (TextAlignSource::ValueType, "value-type")]));
    op!(v, CellStyle, "style:table-cell-properties", set_vertical_align, "style:vertical-align", |s| {
        use CellAlignVertical::*;
        en(s, &[(Top, "top"), (Middle, "middle"), (Bottom, "bottom"), (Automatic, "automatic")])
    });
    op!(v, CellStyle, "style:table-cell-properties", set_writing_mode, "style:writing-mode", wmode);
    para!(v, CellStyle);
    text!(v, CellStyle);
    v
}
fn para_ops() -> Vec<Op<ParagraphStyle>> {
    let mut v: Vec<Op<ParagraphStyle>> = vec![];
    common!(v, ParagraphStyle, ParagraphStyleRef);
    op!(v, ParagraphStyle, "", set_default_outline_level, "style:default-outline-level", int);
    f!(v, ParagraphStyle, "master", |st, s, o| { let n = gen::name(s); st.set_master_page(&MasterPageRef::from(n.as_str())); o.set("", "style:master-page-name", n); });
    f!(v, ParagraphStyle, "next", |st, s, o| { let n = gen::name(s); st.set_next_style(&ParagraphStyleRef::from(n.as_str())); o.set("", "style:next-style-name", n); });
    boxed!(v, ParagraphStyle, "style:paragraph-properties");
    op!(v, ParagraphStyle, "style:paragraph-properties", set_writing_mode, "style:writing-mode", wmode);
    para!(v, ParagraphStyle);
    text!(v, ParagraphStyle);
    rot_scale!(v, ParagraphStyle);
    v
}
fn graphic_ops() -> Vec<Op<GraphicStyle>> {
    let mut v: Vec<Op<GraphicStyle>> = vec![];
    common!(v, GraphicStyle, GraphicStyleRef);
    boxed!(v, GraphicStyle, "style:paragraph-properties");
    op!(v, GraphicStyle, "style:paragraph-properties", set_writing_mode, "style:writing-mode", wmode);
    para!(v, GraphicStyle);
    text!(v, GraphicStyle);
    rot_scale!(v, GraphicStyle);
    v
}
fn text_ops() -> Vec<Op<TextStyle>> {
    let mut v: Vec<Op<TextStyle>> = vec![];
    common!(v, TextStyle, TextStyleRef);
    op!(v, TextStyle, "style:text-properties", set_background_color, "fo:background-color", color);
    op!(v, TextStyle, "style:text-properties", set_rotation_angle, "style:text-rotation-angle", angle);
    text!(v, TextStyle);
    rot_scale!(v, TextStyle);
    v
}
macro_rules! format_ops {
    ($n:ident, $T:ident, $vv:ident, { $($more:tt)* }) => {
        fn $n() -> Vec<Op<$T>> {
            let mut $vv: Vec<Op<$T>> = vec![];
            text_base!($vv, $T);
            rot_scale!($vv, $T);
            op!($vv, $T, "style:text-properties", set_background_color, "fo:background-color", color);
            op!($vv, $T, "style:text-properties", set_rotation_angle, "style:text-rotation-angle", angle);
            f!($vv, $T, "set_locale", |st, s, o| {
                let l = loc(s);
                st.set_locale(l.clone());
                number_loc(o, &l);
                assert_eq!(st.locale(), (l != Locale::UNKNOWN).then_some(l), "locale()");
            });
            f!($vv, $T, "set_transliteration_locale", |st, s, o| {
                let l = s.pickc(&[locale!("de-AT"), locale!("en-US"), locale!("cs"), locale!("ja-JP"), Locale::UNKNOWN]);
                st.set_transliteration_locale(l.clone());
                for a in ["number:transliteration-language", "number:transliteration-country"] {
                    o.clear("", a);
                }
                if l != Locale::UNKNOWN {
                    for (i, p) in l.to_string().split('-').enumerate() {
                        o.set("", if i == 0 { "number:transliteration-language" } else { "number:transliteration-country" }, p);
                    }
                }
                assert_eq!(st.transliteration_locale(), (l != Locale::UNKNOWN).then_some(l), "transliteration_locale()");
            });
            f!($vv, $T, "set_title", |st, s, o| { let (x, t) = txt(s); st.set_title(&x); o.set("", "number:title", t.clone()); assert_eq!(st.title().map(|v| v.to_string()), Some(t), "title()"); });
            f!($vv, $T, "set_transliteration_format", |st, s, o| { let (x, t) = chr(s); st.set_transliteration_format(x); o.set("", "number:transliteration-format", t); assert_eq!(st.transliteration_format(), Some(x)); });
            f!($vv, $T, "set_transliteration_style", |st, s, o| {
                let (x, t) = en(s, &[(TransliterationStyle::Short, "short"), (TransliterationStyle::Medium, "medium"), (TransliterationStyle::Long, "long")]);
                st.set_transliteration_style(x);
                o.set("", "number:transliteration-style", t);
                assert_eq!(st.transliteration_style().expect("style"), Some(x));
            });
            op!($vv, $T, "", set_display_name, "style:display-name", txt);
            f!($vv, $T, "set_volatile", |st, s, o| { let (x, t) = boolean(s); st.set_volatile(x); o.set("", "style:volatile", t); assert_eq!(st.volatile(), Some(x)); });
            $($more)*
            $vv
        }
    };
}
macro_rules! auto_order {
    ($v:ident, $T:ty) => {
        f!($v, $T, "set_automatic_order", |st, s, o| { let (x, t) = boolean(s); st.set_automatic_order(x); o.set("", "number:automatic-order", t); assert_eq!(st.automatic_order(), Some(x)); });
    };
}
macro_rules! format_source {
    ($v:ident, $T:ty) => {
        f!($v, $T, "set_format_source", |st, s, o| {
            let (x, t) = en(s, &[(FormatSource::Fixed, "fixed"), (FormatSource::Language, "language")]);
            st.set_format_source(x);
            o.set("", "number:format-source", t);
            assert_eq!(st.format_source().expect("source"), Some(x));
        });
    };
}
/// number:language, -country and -script of a locale.
fn number_loc(o: &mut Out, l: &Locale) {
    for a in ["number:language", "number:country", "number:script"] {
        o.clear("", a);
    }
    if *l != Locale::UNKNOWN {
        for (i, p) in l.to_string().split('-').enumerate() {
            o.set("", if i == 0 { "number:language" } else if p.len() == 4 { "number:script" } else { "number:country" }, p);
        }
    }
}
format_ops!(fbool_ops, ValueFormatBoolean, v, {});
format_ops!(fnum_ops, ValueFormatNumber, v, {});
format_ops!(fperc_ops, ValueFormatPercentage, v, {});
format_ops!(fcurr_ops, ValueFormatCurrency, v, { auto_order!(v, ValueFormatCurrency); });
format_ops!(ftext_ops, ValueFormatText, v, {});
format_ops!(fdate_ops, ValueFormatDateTime, v, { auto_order!(v, ValueFormatDateTime); format_source!(v, ValueFormatDateTime); });
format_ops!(ftime_ops, ValueFormatTimeDuration, v, {
    format_source!(v, ValueFormatTimeDuration);
    f!(v, ValueFormatTimeDuration, "set_truncate_on_overflow", |st, s, o| { let (x, t) = boolean(s); st.set_truncate_on_overflow(x); o.set("", "number:truncate-on-overflow", t); assert_eq!(st.truncate_on_overflow(), Some(x)); });
});

fn col_ops() -> Vec<Op<ColStyle>> {
    let mut v: Vec<Op<ColStyle>> = vec![];
    common!(v, ColStyle, ColStyleRef);
    breaks!(v, ColStyle, "style:table-column-properties");
    f!(v, ColStyle, "set_col_width", |st, s, o| {
        if s.pct(15) {
            st.set_col_width(Length::Default);
            o.clear("style:table-column-properties", "style:column-width");
        } else {
            let (x, t) = plen(s);
            st.set_col_width(x);
            o.set("style:table-column-properties", "style:column-width", t);
        }
    });
    f!(v, ColStyle, "set_rel_col_width", |st, s, o| { let x = num(s); st.set_rel_col_width(x); o.set("style:table-column-properties", "style:rel-column-width", format!("{}*", x)); });
    op!(v, ColStyle, "style:table-column-properties", set_use_optimal_col_width, "style:use-optimal-column-width", boolean);
    v
}
fn row_ops() -> Vec<Op<RowStyle>> {
    let mut v: Vec<Op<RowStyle>> = vec![];
    common!(v, RowStyle, RowStyleRef);
    breaks!(v, RowStyle, "style:table-row-properties");
    op!(v, RowStyle, "style:table-row-properties", set_background_color, "fo:background-color", color);
    op!(v, RowStyle, "style:table-row-properties", set_keep_together, "fo:keep-together", keep);
    op!(v, RowStyle, "style:table-row-properties", set_min_row_height, "style:min-row-height", plen);
    op!(v, RowStyle, "style:table-row-properties", set_use_optimal_row_height, "style:use-optimal-row-height", boolean);
    f!(v, RowStyle, "set_row_height", |st, s, o| {
        if s.pct(15) {
            st.set_row_height(Length::Default);
            o.clear("style:table-row-properties", "style:row-height");
        } else {
            let (x, t) = plen(s);
            st.set_row_height(x);
            o.set("style:table-row-properties", "style:row-height", t);
        }
    });
    v
}
fn table_ops() -> Vec<Op<TableStyle>> {
    let mut v: Vec<Op<TableStyle>> = vec![];
    common!(v, TableStyle, TableStyleRef);
    f!(v, TableStyle, "master", |st, s, o| { let n = gen::name(s); st.set_master_page(&MasterPageRef::from(n.as_str())); o.set("", "style:master-page-name", n); });
    op!(v, TableStyle, "style:table-properties", set_background_color, "fo:background-color", color);
    breaks!(v, TableStyle, "style:table-properties");
    op!(v, TableStyle, "style:table-properties", set_keep_with_next, "fo:keep-with-next", keep);
    margins!(v, TableStyle, "style:table-properties");
    op!(v, TableStyle, "style:table-properties", set_may_break_between_rows, "style:may-break-between-rows", boolean);
    op!(v, TableStyle, "style:table-properties", set_page_number, "style:page-number", pageno);
    op!(v, TableStyle, "style:table-properties", set_rel_width, "style:rel-width", relscale);
    op!(v, TableStyle, "style:table-properties", set_width, "style:width", plen);
    shad!(v, TableStyle, "style:table-properties", set_shadow "style:shadow");
    op!(v, TableStyle, "style:table-properties", set_writing_mode, "style:writing-mode", wmode);
    op!(v, TableStyle, "style:table-properties", set_align, "table:align", |s| en(s, &[(TableAlign::Center, "center"), (TableAlign::Left, "left"), (TableAlign::Right, "right"), (TableAlign::Margins, "margins")]));
    op!(v, TableStyle, "style:table-properties", set_border_model, "table:border-model", |s| en(s, &[(TableBorderModel::Collapsing, "collapsing"), (TableBorderModel::Separating, "separating")]));
    op!(v, TableStyle, "style:table-properties", set_display, "table:display", boolean);
    op!(v, TableStyle, "style:table-properties", set_tab_color, "table:tab-color", color);
    v
}
fn page_ops() -> Vec<Op<PageStyle>> {
    let mut v: Vec<Op<PageStyle>> = vec![];
    f!(v, PageStyle, "usage", |st, s, o| {
        use MasterPageUsage::*;
        if s.pct(20) {
            st.clear_page_usage();
            o.clear("", "style:page-usage");
        } else {
            let (x, t) = en(s, &[(All, "all"), (Left, "left"), (Mirrored, "mirrored"), (Right, "right")]);
            st.set_page_usage(x);
            o.set("", "style:page-usage", t);
        }
    });
    boxed!(v, PageStyle, "style:page-layout-properties");
    margins!(v, PageStyle, "style:page-layout-properties");
    op!(v, PageStyle, "style:page-layout-properties", set_page_height, "fo:page-height", plen);
    op!(v, PageStyle, "style:page-layout-properties", set_page_width, "fo:page-width", plen);
    op!(v, PageStyle, "style:page-layout-properties", set_first_page_number, "style:first-page-number", int);
    op!(v, PageStyle, "style:page-layout-properties", set_footnote_max_height, "style:footnote-max-height", plen);
    op!(v, PageStyle, "style:page-layout-properties", set_num_format, "style:num-format", |s: &mut Src| {
        use StyleNumFormat::*;
        if s.pct(20) {
            let (v, t) = txt(s);
            (Text(v), t)
        } else {
            en(s, &[(None, ""), (Number, "1"), (LowerAlpha, "a"), (Alpha, "A"), (LowerRoman, "i"), (Roman, "I")])
        }
    });
    op!(v, PageStyle, "style:page-layout-properties", set_num_letter_sync, "style:num-letter-sync", boolean);
    op!(v, PageStyle, "style:page-layout-properties", set_num_prefix, "style:num-prefix", txt);
    op!(v, PageStyle, "style:page-layout-properties", set_num_suffix, "style:num-suffix", txt);
    op!(v, PageStyle, "style:page-layout-properties", set_paper_tray_name, "style:paper-tray-name", txt);
    f!(v, PageStyle, "print", |st, s, o| {
        use PrintContent::*;
        let l = s.vec(1, 3, 8, |s| {
            s.pickc(&[(Headers, "headers"), (Grid, "grid"), (Annotations, "annotations"), (Objects, "objects"), (Charts, "charts"), (Drawings, "drawings"), (Formulas, "formulas"), (ZeroValues, "zero-values")])
        });
        st.set_print(&l.iter().map(|v| v.0).collect::<Vec<_>>());
        o.set("style:page-layout-properties", "style:print", l.iter().map(|v| v.1).collect::<Vec<_>>().join(" "));
    });
    op!(v, PageStyle, "style:page-layout-properties", set_print_orientation, "style:print-orientation", |s| en(s, &[(PrintOrientation::Landscape, "landscape"), (PrintOrientation::Portrait, "portrait")]));
    op!(v, PageStyle, "style:page-layout-properties", set_print_page_order, "style:print-page-order", |s| en(s, &[(PrintOrder::Ltr, "ltr"), (PrintOrder::Ttb, "ttb")]));
    op!(v, PageStyle, "style:page-layout-properties", set_scale_to, "style:scale-to", perc);
    op!(v, PageStyle, "style:page-layout-properties", set_scale_to_pages, "style:scale-to-pages", int);
    op!(v, PageStyle, "style:page-layout-properties", set_table_centering, "style:table-centering", |s| {
        use PrintCentering::*;
        en(s, &[(None, "none"), (Horizontal, "horizontal"), (Vertical, "vertical"), (Both, "both")])
    });
    op!(v, PageStyle, "style:page-layout-properties", set_writing_mode, "style:writing-mode", wmode);
    op!(v, PageStyle, "style:page-layout-properties", set_dynamic_spacing, "style:dynamic-spacing", boolean);
    v
}
fn hf_ops() -> Vec<Op<HeaderFooterStyle>> {
    let mut v: Vec<Op<HeaderFooterStyle>> = vec![];
    boxed!(v, HeaderFooterStyle, "");
    margins!(v, HeaderFooterStyle, "");
    op!(v, HeaderFooterStyle, "", set_min_height, "fo:min-height", lenperc);
    op!(v, HeaderFooterStyle, "", set_dynamic_spacing, "style:dynamic-spacing", boolean);
    op!(v, HeaderFooterStyle, "", set_height, "svg:height", plen);
    v
}
fn font_ops() -> Vec<Op<FontFaceDecl>> {
    let mut v: Vec<Op<FontFaceDecl>> = vec![];
    op!(v, FontFaceDecl, "", set_font_family_generic, "style:font-family-generic", |s| {
        use FontFamilyGeneric::*;
        en(s, &[(Decorative, "decorative"), (Modern, "modern"), (Roman, "roman"), (Script, "script"), (Swiss, "swiss"), (System, "system")])
    });
    op!(v, FontFaceDecl, "", set_font_pitch, "style:font-pitch", |s| en(s, &[(FontPitch::Variable, "variable"), (FontPitch::Fixed, "fixed")]));
    op!(v, FontFaceDecl, "", set_font_family, "svg:font-family", txt);
    op!(v, FontFaceDecl, "", set_font_stretch, "svg:font-stretch", |s| {
        use FontStretch::*;
        en(s, &[(Normal, "normal"), (UltraCondensed, "ultra-condensed"), (ExtraCondensed, "extra-condensed"), (Condensed, "condensed"), (SemiCondensed, "semi-condensed"), (SemiExpanded, "semi-expanded"), (Expanded, "expanded"), (ExtraExpanded, "extra-expanded"), (UltraExpanded, "ultra-expanded")])
    });
    op!(v, FontFaceDecl, "", set_font_style, "svg:font-style", fstyle);
    op!(v, FontFaceDecl, "", set_font_variant, "svg:font-variant", fvariant);
    op!(v, FontFaceDecl, "", set_font_weight, "svg:font-weight", fweight);
    v
}
fn tab_ops() -> Vec<Op<TabStop>> {
    let mut v: Vec<Op<TabStop>> = vec![];
    op!(v, TabStop, "", set_char, "style:char", chr);
    op!(v, TabStop, "", set_leader_color, "style:leader-color", color);
    op!(v, TabStop, "", set_leader_style, "style:leader-style", lstyle);
    op!(v, TabStop, "", set_leader_text, "style:leader-text", chr);
    f!(v, TabStop, "leader-text-style", |st, s, o| { let n = gen::name(s); st.set_leader_text_style(&TextStyleRef::from(n.as_str())); o.set("", "style:leader-text-style", n); });
    op!(v, TabStop, "", set_leader_type, "style:leader-type", ltype);
    op!(v, TabStop, "", set_leader_width, "style:leader-width", lwidth);
    op!(v, TabStop, "", set_position, "style:position", len);
    op!(v, TabStop, "", set_type, "style:type", |s| {
        use TabStopType::*;
        en(s, &[(Center, "center"), (Left, "left"), (Right, "right"), (Char, "char")])
    });
    v
}
macro_rules! draw {
    ($v:ident, $T:ty) => {
        f!($v, $T, "class-names", |st, s, o| {
            let l = s.vec(1, 2, 4, gen::ident);
            st.set_draw_class_names(&l.iter().map(|v| GraphicStyleRef::from(v.as_str())).collect::<Vec<_>>());
            o.set("", "draw:class-names", l.join(" "));
        });
        f!($v, $T, "transform", |st, s, o| {
            let l = s.vec(1, 2, 4, |s| s.pickc(&["rotate(1)", "translate(1cm)", "skewX(2)", "scale(2)"]));
            st.set_draw_transform(&l);
            o.set("", "draw:transform", l.join(" "));
        });
        op!($v, $T, "", set_draw_corner_radius, "draw:corner-radius", int);
        op!($v, $T, "", set_draw_id, "draw:id", txt);
        op!($v, $T, "", set_draw_layer, "draw:layer", txt);
        f!($v, $T, "style", |st, s, o| { let n = gen::name(s); st.set_draw_style_name(GraphicStyleRef::from(n.as_str())); o.set("", "draw:style-name", n); });
        f!($v, $T, "text-style", |st, s, o| { let n = gen::name(s); st.set_draw_text_style_name(ParagraphStyleRef::from(n.as_str())); o.set("", "draw:text-style-name", n); });
        op!($v, $T, "", set_draw_z_index, "draw:z-index", int);
        op!($v, $T, "", set_height, "svg:height", plen);
        op!($v, $T, "", set_width, "svg:width", plen);
        op!($v, $T, "", svg_x, "svg:x", len);
        op!($v, $T, "", svg_y, "svg:y", len);
        op!($v, $T, "", set_table_end_cell_address, "table:end-cell-address", cref);
        op!($v, $T, "", set_table_end_x, "table:end-x", len);
        op!($v, $T, "", set_table_end_y, "table:end-y", len);
        op!($v, $T, "", set_table_table_background, "table:table-background", boolean);
        op!($v, $T, "", set_xml_id, "xml:id", gid);
    };
}
fn gid(s: &mut Src) -> (String, String) {
    let v = gen::ident(s);
    (v.clone(), v)
}
fn ann_ops() -> Vec<Op<Annotation>> {
    let mut v: Vec<Op<Annotation>> = vec![];
    draw!(v, Annotation);
    op!(v, Annotation, "", set_draw_caption_point_x, "draw:caption-point-x", len);
    op!(v, Annotation, "", set_draw_caption_point_y, "draw:caption-point-y", len);
    op!(v, Annotation, "", set_display, "office:display", boolean);
    v
}
fn frame_ops() -> Vec<Op<DrawFrame>> {
    let mut v: Vec<Op<DrawFrame>> = vec![];
    draw!(v, DrawFrame);
    op!(v, DrawFrame, "", set_draw_name, "draw:name", txt);
    op!(v, DrawFrame, "", set_draw_caption_id, "draw:caption-id", txt);
    op!(v, DrawFrame, "", set_draw_copy_of, "draw:copy-of", txt);
    op!(v, DrawFrame, "", set_rel_height, "style:rel-height", relscale);
    op!(v, DrawFrame, "", set_rel_width, "style:rel-width", relscale);
    v
}
fn image_ops() -> Vec<Op<DrawImage>> {
    let mut v: Vec<Op<DrawImage>> = vec![];
    op!(v, DrawImage, "", set_draw_filter_name, "draw:filter-name", txt);
    op!(v, DrawImage, "", set_draw_mime_type, "draw:mime-type", txt);
    op!(v, DrawImage, "", set_xlink_href, "xlink:href", txt);
    op!(v, DrawImage, "", set_xlink_actuate, "xlink:actuate", |s| en(s, &[(XLinkActuate::OnLoad, "onLoad"), (XLinkActuate::OnRequest, "onRequest")]));
    op!(v, DrawImage, "", set_xlink_show, "xlink:show", |s| en(s, &[(XLinkShow::New, "new"), (XLinkShow::Replace, "replace")]));
    op!(v, DrawImage, "", set_xlink_type, "xlink:type", |s| {
        use XLinkType::*;
        en(s, &[(Simple, "simple"), (Extended, "extended"), (Locator, "locator"), (Arc, "arc"), (Resource, "resource"), (Title, "title"), (None, "none")])
    });
    op!(v, DrawImage, "", set_xml_id, "xml:id", gid);
    v
}

// ------------------------------------------------------------ the check
fn calls<T>(s: &mut Src, t: &mut T, ops: &[Op<T>]) -> Out {
    let mut o = Out::default();
    let n = 1 + s.u(10);
    // now and then the same few setters again
    let few = s.pct(25).then(|| (0..3).map(|_| s.u(ops.len())).collect::<Vec<_>>());
    for _ in 0..n {
        let i = match &few {
            Some(f) => s.pickc(f),
            None => s.u(ops.len()),
        };
        o.calls.push(ops[i].0);
        (ops[i].1)(t, s, &mut o);
    }
    o
}

/// Same text, or the same words with numbers spelled differently.
fn same(a: &str, b: &str) -> bool {
    if a == b {
        return true;
    }
    let (x, y): (Vec<&str>, Vec<&str>) = (a.split_whitespace().collect(), b.split_whitespace().collect());
    x.len() == y.len()
        && x.iter().zip(&y).all(|(x, y)| {
            let cut = |t: &str| t.rfind(|c: char| c.is_ascii_digit() || c == '.').map_or(0, |p| p + 1);
            let (xn, xu) = x.split_at(cut(x));
            let (yn, yu) = y.split_at(cut(y));
            x == y || (!x.starts_with('#') && xu == yu && xn.parse::<f64>().is_ok_and(|v| yn.parse::<f64>() == Ok(v)))
        })
}
fn compare(what: &str, e: Option<&Elem>, skip: &[&str], want: &Attrs) -> R {
    let none = BTreeMap::new();
    let got: Attrs = e.map_or(none, |e| e.attrs.iter().filter(|(k, _)| !skip.contains(&k.as_str())).map(|(k, v)| (k.clone(), v.clone())).collect());
    for (k, v) in want {
        match got.get(k) {
            None => return Err(format!("{}: attribute {} = {:?} is missing, found {:?}", what, k, v, got)),
            Some(g) if !same(g, v) => return Err(format!("{}: attribute {} is {:?}, expected {:?}", what, k, g, v)),
            _ => {}
        }
    }
    for (k, v) in &got {
        if !want.contains_key(k) {
            return Err(format!("{}: unexpected attribute {} = {:?}", what, k, v));
        }
    }
    Ok(())
}
fn compare_style(what: &str, e: &Elem, skip: &[&str], o: &Out, groups: &[&'static str]) -> R {
    let none = Attrs::new();
    for g in groups {
        let want = o.want.get(g).unwrap_or(&none);
        let el = if g.is_empty() { Some(e) } else { e.find(g) };
        compare(&format!("{} {}", what, g), el, if g.is_empty() { skip } else { &[] }, want)?;
    }
    Ok(())
}
fn parse_all(buf: &[u8], f: Fmt) -> Result<Vec<Elem>, String> {
    Ok(if f == Fmt::Fods {
        vec![xmlp::parse(buf, true)?]
    } else {
        let m = xmlp::unzip_map(buf)?;
        let mut r = vec![];
        for n in ["content.xml", "styles.xml"] {
            r.push(xmlp::parse(m.get(n).ok_or(format!("no {}", n))?, true)?);
        }
        r
    })
}
fn find<'a>(docs: &'a [Elem], pred: impl Fn(&Elem) -> bool) -> Vec<&'a Elem> {
    let mut r = vec![];
    for d in docs {
        d.walk(&mut |e| {
            if pred(e) {
                r.push(e);
            }
        });
    }
    r
}

fn setters(s: &mut Src, ctx: &mut Ctx) -> R {
    let f = fmt(s);
    let kind = s.u(17);
    let mut book = WorkBook::new_empty();
    let mut sheet = Sheet::new("s");
    let name = gen::ident(s);
    macro_rules! style {
        ($T:ident, $ops:ident, $add:ident, $fam:literal, [$($g:literal),*]) => {{
            let mut st = if s.coin() { $T::new_empty() } else { $T::new_empty().clone() };
            st.set_name(&name);
            if s.pct(30) { st.set_styleuse(StyleUse::Named); }
            if s.pct(30) { st.set_origin(StyleOrigin::Styles); }
            let o = calls(s, &mut st, &$ops());
            book.$add(st);
            (o, $fam, vec!["", $($g),*])
        }};
    }
    let (o, fam, groups): (Out, &str, Vec<&'static str>) = match kind {
        0 | 1 => style!(CellStyle, cell_ops, add_cellstyle, "table-cell", ["style:table-cell-properties", "style:paragraph-properties", "style:text-properties"]),
        2 => style!(ParagraphStyle, para_ops, add_paragraphstyle, "paragraph", ["style:paragraph-properties", "style:text-properties"]),
        3 => style!(GraphicStyle, graphic_ops, add_graphicstyle, "graphic", ["style:graphic-properties", "style:paragraph-properties", "style:text-properties"]),
        4 => style!(TextStyle, text_ops, add_textstyle, "text", ["style:text-properties"]),
        5 => style!(ColStyle, col_ops, add_colstyle, "table-column", ["style:table-column-properties"]),
        6 => style!(RowStyle, row_ops, add_rowstyle, "table-row", ["style:table-row-properties"]),
        7 => style!(TableStyle, table_ops, add_tablestyle, "table", ["style:table-properties"]),
        8 => {
            let mut p = PageStyle::new(&name);
            let o = calls(s, &mut p, &page_ops());
            book.add_pagestyle(p);
            (o, "page", vec!["", "style:page-layout-properties"])
        }
        9 => {
            let mut p = PageStyle::new(&name);
            let o = calls(s, p.headerstyle_mut(), &hf_ops());
            let foot = calls(s, p.footerstyle_mut(), &hf_ops());
            book.add_pagestyle(p);
            let mut o2 = Out { calls: [o.calls, foot.calls].concat(), ..Default::default() };
            o2.want.insert("h", o.want.get("").cloned().unwrap_or_default());
            o2.want.insert("f", foot.want.get("").cloned().unwrap_or_default());
            (o2, "header-footer", vec![])
        }
        10 => {
            let mut p = FontFaceDecl::new(&name);
            let o = calls(s, &mut p, &font_ops());
            book.add_font(p);
            (o, "font", vec![""])
        }
        11 => {
            let mut p = ParagraphStyle::new(&name);
            let mut t = TabStop::new();
            let o = calls(s, &mut t, &tab_ops());
            p.add_tabstop(t);
            book.add_paragraphstyle(p);
            (o, "tab-stop", vec![""])
        }
        12 => {
            let mut a = if s.coin() { Annotation::new_empty() } else { Annotation::new("x") };
            let disp = a.display();
            let mut o = Out::default();
            let r = calls(s, &mut a, &ann_ops());
            o.set("", "office:display", if disp { "true" } else { "false" });
            for (k, v) in r.want.get("").cloned().unwrap_or_default() {
                o.set("", &k, v);
            }
            o.calls = r.calls;
            sheet.set_value(0, 0, 1);
            sheet.set_annotation(0, 0, a);
            (o, "annotation", vec![""])
        }
        14..=16 => {
            macro_rules! fm {
                ($T:ident, $ops:ident, $add:ident, $fam:literal) => {{
                    #[allow(deprecated)]
                    let (mut st, l) = match s.u(4) {
                        0 => { let mut st = $T::new_empty(); st.set_name(&name); (st, None) }
                        1 => ($T::new_with_name(&name), None),
                        2 => ($T::new_named(&name), None),
                        _ => { let l = loc(s); ($T::new_localized(&name, l.clone()), Some(l)) }
                    };
                    if s.pct(30) { st.set_styleuse(StyleUse::Named); }
                    if s.pct(30) { st.set_origin(StyleOrigin::Styles); }
                    let mut o = calls(s, &mut st, &$ops());
                    if let Some(l) = l {
                        if !o.calls.contains(&"set_locale") { number_loc(&mut o, &l); }
                    }
                    book.$add(st);
                    (o, $fam, vec!["", "style:text-properties"])
                }};
            }
            match s.u(7) {
                0 => fm!(ValueFormatBoolean, fbool_ops, add_boolean_format, "number:boolean-style"),
                1 => fm!(ValueFormatNumber, fnum_ops, add_number_format, "number:number-style"),
                2 => fm!(ValueFormatPercentage, fperc_ops, add_percentage_format, "number:percentage-style"),
                3 => fm!(ValueFormatCurrency, fcurr_ops, add_currency_format, "number:currency-style"),
                4 => fm!(ValueFormatText, ftext_ops, add_text_format, "number:text-style"),
                5 => fm!(ValueFormatDateTime, fdate_ops, add_datetime_format, "number:date-style"),
                _ => fm!(ValueFormatTimeDuration, ftime_ops, add_timeduration_format, "number:time-style"),
            }
        }
        _ => {
            let mut fr = DrawFrame::new();
            let mut im = DrawImage::new();
            let o = calls(s, &mut fr, &frame_ops());
            let oi = calls(s, &mut im, &image_ops());
            fr.push_content(DrawFrameContent::Image(im));
            sheet.set_value(0, 0, 1);
            sheet.add_draw_frame(0, 0, fr);
            let mut o2 = Out { calls: [o.calls, oi.calls].concat(), ..Default::default() };
            o2.want.insert("frame", o.want.get("").cloned().unwrap_or_default());
            o2.want.insert("image", oi.want.get("").cloned().unwrap_or_default());
            (o2, "frame", vec![])
        }
    };
    ctx.label(fam_label(fam));
    ctx.nontrivial = o.want.values().map(|m| m.len()).sum::<usize>() >= 2;
    ctx.repr = format!("{:?} {} {:?}", f, fam, o.want);
    if s.coin() {
        book.push_sheet(sheet);
    } else {
        book.insert_sheet(0, sheet);
    }
    let buf = write(&mut book, f)?;
    let docs = parse_all(&buf, f)?;
    let what = format!("{:?} {} style after {:?}:", f, fam, o.calls);
    let one = |v: Vec<&'static str>, l: Vec<&Elem>| -> Result<(), String> {
        let _ = v;
        if l.is_empty() { Err(format!("{} not found in the file", what)) } else { Ok(()) }
    };
    match fam {
        "page" | "header-footer" => {
            let l = find(&docs, |e| e.name == "style:page-layout" && e.attr("style:name") == Some(&name));
            one(vec![], l.clone())?;
            for e in l {
                if fam == "page" {
                    compare_style(&what, e, &["style:name"], &o, &groups)?;
                } else {
                    for (k, n) in [("h", "style:header-style"), ("f", "style:footer-style")] {
                        let el = e.find(n).and_then(|v| v.find("style:header-footer-properties"));
                        compare(&format!("{} {}", what, n), el, &[], &o.want[k])?;
                    }
                }
            }
        }
        "font" => {
            let l = find(&docs, |e| e.name == "style:font-face" && e.attr("style:name") == Some(&name));
            one(vec![], l.clone())?;
            for e in l {
                compare_style(&what, e, &["style:name"], &o, &groups)?;
            }
        }
        "tab-stop" | "annotation" => {
            let n = if fam == "tab-stop" { "style:tab-stop" } else { "office:annotation" };
            let l = find(&docs, |e| e.name == n);
            one(vec![], l.clone())?;
            for e in l {
                compare_style(&what, e, &["office:name"], &o, &groups)?;
            }
        }
        "frame" => {
            for (k, n) in [("frame", "draw:frame"), ("image", "draw:image")] {
                let l = find(&docs, |e| e.name == n);
                one(vec![], l.clone())?;
                for e in l {
                    compare(&format!("{} {}", what, n), Some(e), &[], &o.want[k])?;
                }
            }
        }
        n if n.starts_with("number:") => {
            let l = find(&docs, |e| e.name == n && e.attr("style:name") == Some(&name));
            if l.len() != 1 {
                return Err(format!("{} found {} times", what, l.len()));
            }
            compare_style(&what, l[0], &["style:name"], &o, &groups)?;
        }
        _ => {
            let l = find(&docs, |e| e.name == "style:style" && e.attr("style:name") == Some(&name) && e.attr("style:family") == Some(fam));
            if l.len() != 1 {
                return Err(format!("{} found {} times", what, l.len()));
            }
            compare_style(&what, l[0], &["style:name", "style:family"], &o, &groups)?;
        }
    }
    Ok(())
}
fn fam_label(f: &str) -> &'static str {
    match f {
        "table-cell" => "cell",
        "paragraph" => "paragraph",
        "graphic" => "graphic",
        "text" => "text",
        "table-column" => "column",
        "table-row" => "row",
        "table" => "table",
        "page" => "page",
        "header-footer" => "header/footer",
        "font" => "font",
        "tab-stop" => "tab-stop",
        "annotation" => "annotation",
        n if n.starts_with("number:") => "value format",
        _ => "frame",
    }
}

// ------------------------------------------------------------ text builders
fn refs<R: for<'a> From<&'a str>>(s: &mut Src) -> (Vec<R>, String) {
    let l = s.vec(1, 2, 4, gen::ident);
    (l.iter().map(|v| R::from(v.as_str())).collect(), l.join(" "))
}
fn texts(s: &mut Src, ctx: &mut Ctx) -> R {
    let mut want: Attrs = Attrs::new();
    let n = s.u(6);
    macro_rules! plain {
        ($t:ident, $n:literal) => {{
            let t = if s.coin() { $t::new() } else { $t::default() };
            done!($n, t)
        }};
    }
    // content: the order of texts and elements is kept
    let mut content = String::new();
    macro_rules! done {
        ($n:literal, $t:ident) => {{
            let mut t = $t;
            for _ in 0..s.u(3) {
                if s.coin() {
                    let l = gen::line1(s);
                    content.push_str(&format!("T{:?}", l));
                    t = t.text(l);
                } else {
                    content.push_str("<text:span>");
                    t = match s.u(3) { 0 => t.tag(TextSpan::new()), 1 => t.tag("text:span"), _ => t.tag("text:span".to_string()) };
                }
            }
            ($n, if s.coin() { t.into_xmltag() } else { t.into() })
        }};
    }
    let pname = |s: &mut Src| gen::name(s);
    let (tag, mut x): (&str, XmlTag) = match s.u(30) {
        0..=4 => {
            let mut t = TextH::new();
            for _ in 0..n {
                t = match s.u(9) {
                    0 => { let (l, e) = refs::<ParagraphStyleRef>(s); want.insert("text:class-names".into(), e); t.class_names(&l.iter().collect::<Vec<_>>()) }
                    1 => { let v = pname(s); want.insert("text:cond-style-name".into(), v.clone()); t.condstyle_name(&ParagraphStyleRef::from(v)) }
                    2 => { let (v, e) = gid(s); want.insert("text:id".into(), e); t.id(&v) }
                    3 => { let (v, e) = boolean(s); want.insert("text:is-list-header".into(), e); t.list_header(v) }
                    4 => { let (v, e) = int8(s); want.insert("text:outline-level".into(), e); t.outline_level(v) }
                    5 => { let (v, e) = boolean(s); want.insert("text:restart-numbering".into(), e); t.restart_numbering(v) }
                    6 => { let (v, e) = int8(s); want.insert("text:start-value".into(), e); t.start_value(v) }
                    7 => { let v = pname(s); want.insert("text:style-name".into(), v.clone()); t.style_name(&ParagraphStyleRef::from(v)) }
                    _ => { let (v, e) = gid(s); want.insert("xml:id".into(), e); t.xml_id(&v) }
                };
            }
            done!("text:h", t)
        }
        5..=9 => {
            let mut t = TextP::new();
            for _ in 0..n {
                t = match s.u(5) {
                    0 => { let (l, e) = refs::<ParagraphStyleRef>(s); want.insert("text:class-names".into(), e); t.class_names(&l.iter().collect::<Vec<_>>()) }
                    1 => { let v = pname(s); want.insert("text:cond-style-name".into(), v.clone()); t.condstyle_name(&ParagraphStyleRef::from(v)) }
                    2 => { let (v, e) = gid(s); want.insert("text:id".into(), e); t.id(&v) }
                    3 => { let v = pname(s); want.insert("text:style-name".into(), v.clone()); t.style_name(&ParagraphStyleRef::from(v)) }
                    _ => { let (v, e) = gid(s); want.insert("xml:id".into(), e); t.xml_id(&v) }
                };
            }
            done!("text:p", t)
        }
        10..=11 => {
            let mut t = TextSpan::new();
            for _ in 0..n {
                t = match s.u(2) {
                    0 => { let (l, e) = refs::<TextStyleRef>(s); want.insert("text:class-names".into(), e); t.class_names(&l.iter().collect::<Vec<_>>()) }
                    _ => { let v = pname(s); want.insert("text:style-name".into(), v.clone()); t.style_name(&TextStyleRef::from(v)) }
                };
            }
            done!("text:span", t)
        }
        12..=13 => {
            let mut t = TextA::new();
            for _ in 0..n {
                t = match s.u(3) {
                    0 => { let v = pname(s); want.insert("text:visited-style-name".into(), v.clone()); t.visited_style_name(&TextStyleRef::from(v)) }
                    1 => { let v = pname(s); want.insert("text:style-name".into(), v.clone()); t.style_name(&TextStyleRef::from(v)) }
                    _ => { let (v, e) = txt(s); want.insert("xlink:href".into(), e); t.href(v) }
                };
            }
            done!("text:a", t)
        }
        14 => { let (v, e) = int(s); want.insert("text:c".into(), e); ("text:s", TextS::new().count(v).into_xmltag()) }
        15 => { let (v, e) = int(s); want.insert("text:tab-ref".into(), e); ("text:tab", TextTab::new().tab_ref(v).into_xmltag()) }
        _ => match s.u(26) {
            0 => plain!(TextS, "text:s"),
            1 => plain!(TextTab, "text:tab"),
            2 => plain!(SoftPageBreak, "text:soft-page-break"),
            3 => plain!(MetaDate, "text:date"),
            4 => plain!(MetaTime, "text:time"),
            5 => plain!(MetaPageNumber, "text:page-number"),
            6 => plain!(MetaAuthorName, "text:author-name"),
            7 => plain!(MetaAuthorInitials, "text:author-initials"),
            8 => plain!(MetaFileName, "text:file-name"),
            9 => plain!(MetaSheetName, "text:sheet-name"),
            10 => plain!(MetaInitialCreator, "text:initial-creator"),
            11 => plain!(MetaCreationDate, "text:creation-date"),
            12 => plain!(MetaCreationTime, "text:creation-time"),
            13 => plain!(MetaDescription, "text:description"),
            14 => plain!(MetaPrintTime, "text:print-time"),
            15 => plain!(MetaPrintDate, "text:print-date"),
            16 => plain!(MetaPrintedBy, "text:printed-by"),
            17 => plain!(MetaTitle, "text:title"),
            18 => plain!(MetaSubject, "text:subject"),
            19 => plain!(MetaKeywords, "text:keywords"),
            20 => plain!(MetaEditingCycles, "text:editing-cycles"),
            21 => plain!(MetaEditingDuration, "text:editing-duration"),
            22 => plain!(MetaModificationTime, "text:modification-time"),
            23 => plain!(MetaModificationDate, "text:modification-date"),
            24 => plain!(MetaCreator, "text:creator"),
            _ => if s.coin() { plain!(MetaPageCount, "text:page-count") } else { plain!(MetaCharacterCount, "text:character-count") },
        },
    };
    for _ in 0..s.u(4) {
        if s.coin() {
            let t = gen::line1(s);
            content.push_str(&format!("T{:?}", t));
            x = x.text(t);
        } else {
            content.push_str("<text:span>");
            x = x.tag(TextSpan::new());
        }
    }
    ctx.label_if(tag == "text:h", "heading");
    ctx.label_if(tag == "text:p", "paragraph");
    ctx.nontrivial = want.len() + content.len() >= 2;
    ctx.repr = format!("{} {:?} {}", tag, want, content);
    eq("element", x.name(), tag)?;
    let got: Attrs = x.attrmap().iter().map(|(k, v)| (k.to_string(), v.to_string())).collect();
    for (k, v) in &want {
        match got.get(k) {
            Some(g) if same(g, v) => {}
            g => return Err(format!("{}: attribute {} is {:?}, expected {:?}", tag, k, g, v)),
        }
    }
    eq("number of attributes", got.len(), want.len())?;
    let mut c = String::new();
    for i in x.content() {
        match i {
            spreadsheet_ods::xmltree::XmlContent::Text(t) => c.push_str(&format!("T{:?}", t)),
            spreadsheet_ods::xmltree::XmlContent::Tag(t) => c.push_str(&format!("<{}>", t.name())),
        }
    }
    eq("content", c, content)
}

// ------------------------------------------------------------ element trees
/// Canonical form: adjacent texts are joined, empty ones dropped.
fn elem_str(e: &Elem) -> String {
    let mut a: Vec<_> = e.attrs.iter().map(|(k, v)| format!(" {}={:?}", k, v)).collect();
    a.sort();
    let mut o = format!("<{}{}>", e.name, a.concat());
    let mut txt = String::new();
    for k in &e.kids {
        match k {
            xmlp::Node::Text(t) => txt.push_str(t),
            xmlp::Node::Elem(c) => {
                if !txt.is_empty() {
                    o.push_str(&format!("{:?}", std::mem::take(&mut txt)));
                }
                o.push_str(&elem_str(c));
            }
        }
    }
    if !txt.is_empty() {
        o.push_str(&format!("{:?}", txt));
    }
    o + "</>"
}
fn tag_elem(t: &XmlTag) -> Elem {
    use spreadsheet_ods::xmltree::XmlContent;
    Elem {
        name: t.name().to_string(),
        attrs: t.attrmap().iter().map(|(k, v)| (k.to_string(), v.to_string())).collect(),
        kids: t.content().iter().map(|c| match c { XmlContent::Text(t) => xmlp::Node::Text(t.clone()), XmlContent::Tag(t) => xmlp::Node::Elem(tag_elem(t)) }).collect(),
    }
}
const TREE_ATTRS: &[&str] = &["text:a", "text:b", "draw:name", "xlink:href", "style:name"];
fn put(e: &mut Elem, k: &str, v: String) {
    match e.attrs.iter_mut().find(|a| a.0 == k) {
        Some(a) => a.1 = v,
        None => e.attrs.push((k.into(), v)),
    }
}
/// A history of calls on an element; the model is an element of the XML parser.
fn tree_ops(s: &mut Src, depth: usize, log: &mut usize) -> Result<(XmlTag, Elem), String> {
    use spreadsheet_ods::xmltree::XmlContent;
    let n = s.pickc(&["text:span", "text:a", "text:ruby", "draw:frame"]);
    let mut t = match s.u(4) {
        0 => XmlTag::from(n),
        1 => XmlTag::from(n.to_string()),
        2 => { let mut t = XmlTag::default(); t.set_name(n); t }
        _ => XmlTag::new(n),
    };
    let mut e = Elem { name: n.into(), ..Default::default() };
    for _ in 0..s.u(9) {
        *log += 1;
        let k = s.pickc(TREE_ATTRS);
        match s.u(13) {
            0 => { let v = gen::line(s); t.set_attr(k, v.clone()); put(&mut e, k, v); }
            1 => { let v = gen::line(s); t = t.attr(k, v.clone()); put(&mut e, k, v); }
            2 | 3 => {
                let l: Vec<(&str, String)> = (0..s.u(4)).map(|_| (s.pickc(TREE_ATTRS), gen::line(s))).collect();
                for (k, v) in &l {
                    put(&mut e, k, v.clone());
                }
                if s.coin() { t.add_attr_slice(l) } else { t = t.attr_slice(l) }
            }
            4 => {
                let got = t.attrmap_mut().clear_attr(k);
                let i = e.attrs.iter().position(|a| a.0 == k);
                eq("cleared attribute", got, i.map(|i| e.attrs.remove(i).1))?;
            }
            5 => { let v = gen::line1(s); t.add_text(v.clone()); e.kids.push(xmlp::Node::Text(v)); }
            6 => { let v = gen::line1(s); t = t.text(v.clone()); e.kids.push(xmlp::Node::Text(v)); }
            7 | 8 if depth > 0 => {
                let (c, m) = tree_ops(s, depth - 1, log)?;
                if s.coin() { t.add_tag(c) } else { t = t.tag(c) }
                e.kids.push(xmlp::Node::Elem(m));
            }
            9 if !e.kids.is_empty() => {
                let i = s.u(e.kids.len());
                t.content_mut().remove(i);
                e.kids.remove(i);
            }
            10 if e.kids.len() > 1 => {
                let i = s.u(e.kids.len() - 1);
                t.content_mut().swap(i, i + 1);
                e.kids.swap(i, i + 1);
            }
            11 => { let n = s.pickc(&["text:span", "text:b", "office:x"]); t.set_name(n); e.name = n.into(); }
            _ => {
                if s.coin() { t = t.clone(); }
                t.attrmap_mut().shrink_to_fit();
            }
        }
        for k in TREE_ATTRS {
            eq(&format!("attribute {}", k), t.get_attr(*k), e.attr(k))?;
            eq(&format!("attribute {} with default", k), t.attrmap().attr_def(k, "\u{1}"), e.attr(k).unwrap_or("\u{1}"))?;
        }
        eq("number of attributes", t.attrmap().len(), e.attrs.len())?;
        eq("no attributes", t.attrmap().is_empty(), e.attrs.is_empty())?;
        eq("empty", t.is_empty(), e.kids.is_empty())?;
        eq("tree", elem_str(&tag_elem(&t)), elem_str(&e))?;
        let mut x = String::from("+");
        t.extract_text(&mut x);
        eq("text of the tree", x, format!("+{}", e.text()))?;
        let mixed: Vec<XmlContent> = t.clone().into_mixed_vec();
        eq("mixed content", &mixed, t.content())?;
        let lit = e.kids.iter().any(|k| matches!(k, xmlp::Node::Text(t) if !t.trim().is_empty()));
        match t.clone().into_vec() {
            Ok(_) if lit => return Err("into_vec() drops literal text".into()),
            Err(_) if !lit => return Err("into_vec() fails without literal text".into()),
            Ok(v) => eq("elements", v.iter().map(|t| elem_str(&tag_elem(t))).collect::<Vec<_>>(), e.elems().map(elem_str).collect())?,
            _ => {}
        }
    }
    Ok((t, e))
}
/// Elements built by any calls hold what the calls say, in memory and in the file.
fn trees(s: &mut Src, ctx: &mut Ctx) -> R {
    let f = fmt(s);
    let mut n = 0;
    let (t, e) = tree_ops(s, 3, &mut n)?;
    ctx.nontrivial = n >= 4;
    ctx.repr = format!("{:?} {}", f, elem_str(&e));
    let mut sheet = Sheet::new("s");
    sheet.set_value(0, 0, Value::TextXml(vec![TextP::new().tag(t).into_xmltag()]));
    let mut book = WorkBook::new_empty();
    book.push_sheet(sheet);
    let buf = write(&mut book, f)?;
    let docs = parse_all(&buf, f)?;
    let l = find(&docs, |e| e.name == "text:p");
    eq("paragraphs in the file", l.len(), 1)?;
    let got: String = l[0].elems().map(elem_str).collect();
    eq("tree in the file", got, elem_str(&e))
}

// ------------------------------------------------------------ drawing histories
/// Any sequence of calls on an annotation, a frame and an image leaves exactly what the last ones said.
fn drawings(s: &mut Src, ctx: &mut Ctx) -> R {
    let n = s.u(12);
    let xml = |v: &[TextTag]| v.iter().map(gen::xml_str).collect::<Vec<_>>();
    let p = |t: &str| gen::xml_str(&TextP::new().text(t).into_xmltag());
    ctx.nontrivial = n >= 3;
    ctx.repr = format!("drawing calls {}", n);
    match s.u(3) {
        0 => {
            ctx.label("annotation");
            let first = gen::text(s);
            let fresh = s.coin();
            let mut a = if fresh { Annotation::new(first.clone()) } else { Annotation::new_empty() };
            let (mut name, mut disp, mut creator, mut date) = (String::new(), fresh, None, None);
            let mut text = if fresh { vec![p(&first)] } else { vec![] };
            for _ in 0..n {
                match s.u(7) {
                    0 => { name = gen::text(s); a.set_name(name.clone()); }
                    1 => { disp = s.coin(); a.set_display(disp); }
                    2 => { creator = s.opt(70, gen::text); a.set_creator(creator.clone()); }
                    3 => { date = s.opt(70, gen::datetime); a.set_date(date); }
                    4 => { let t = gen::text(s); a.push_text_str(t.clone()); text.push(p(&t)); }
                    5 => { let t = crate::model::paragraph(s); text.push(gen::xml_str(&t)); a.push_text(t); }
                    _ => { let l = s.vec(0, 2, 4, crate::model::paragraph); text = xml(&l); a.set_text(l); }
                }
                eq("name", a.name(), name.as_str())?;
                eq("display", a.display(), disp)?;
                eq("creator", a.creator(), creator.as_ref())?;
                eq("date", a.date(), date.as_ref())?;
                eq("text", xml(a.text()), text.clone())?;
            }
            ctx.repr = format!("{} calls on an annotation: {} {} {:?} {:?} {:?}", n, name, disp, creator, date, text);
        }
        1 => {
            ctx.label("draw frame");
            let mut f = DrawFrame::new();
            let (mut desc, mut title) = (None, None);
            let mut cont: Vec<String> = vec![];
            let img = |s: &mut Src| {
                let mut i = DrawImage::new();
                let h = gen::text(s);
                i.set_xlink_href(h.clone());
                (DrawFrameContent::Image(i), h)
            };
            for _ in 0..n {
                match s.u(8) {
                    0 | 1 => { let t = gen::text(s); desc = Some(t.clone()); f.set_desc(t); }
                    2 => { desc = None; f.clear_desc(); }
                    3 => { let t = gen::text(s); title = Some(t.clone()); f.set_title(t); }
                    4 => { title = None; f.clear_title(); }
                    5 => { let (i, h) = img(s); cont.push(h); f.push_content(i); }
                    6 => { let l = s.vec(0, 2, 4, img); cont = l.iter().map(|v| v.1.clone()).collect(); f.set_content(l.into_iter().map(|v| v.0).collect()); }
                    _ => if s.coin() { cont.clear(); f.clear_content(); } else if f.content_mut().pop().is_some() { cont.pop(); },
                }
                eq("desc", f.desc(), desc.as_ref())?;
                eq("title", f.title(), title.as_ref())?;
                let got: Vec<String> = f.content_ref().iter().map(|v| { let DrawFrameContent::Image(i) = v; i.attrmap().attr("xlink:href").unwrap_or("?").to_string() }).collect();
                eq("content", &got, &cont)?;
            }
            ctx.repr = format!("{} calls on a frame: {:?} {:?} {:?}", n, desc, title, cont);
        }
        _ => {
            ctx.label("image");
            let mut i = DrawImage::new();
            let mut bin: Option<Vec<u8>> = None;
            let mut text: Vec<String> = vec![];
            for _ in 0..n {
                match s.u(6) {
                    0 => { let b: Vec<u8> = s.vec(0, 8, 400, |s| s.u(256) as u8); i.set_binary(&b); bin = Some(b); }
                    1 => { i.clear_binary(); bin = None; }
                    2 => { i.set_binary_base64("QUJD".into()); bin = Some(b"ABC".to_vec()); }
                    3 => { let t = gen::text(s); i.push_text_str(t.clone()); text.push(p(&t)); }
                    4 => { let t = crate::model::paragraph(s); text.push(gen::xml_str(&t)); i.push_text(t); }
                    _ => { let l = s.vec(0, 2, 4, crate::model::paragraph); text = xml(&l); i.set_text(l); }
                }
                eq("has binary", i.get_binary_base64().is_some(), bin.is_some())?;
                eq("binary", i.get_binary().map_err(|e| e.to_string())?, bin.clone().unwrap_or_default())?;
                eq("text", xml(i.get_text()), text.clone())?;
            }
            ctx.repr = format!("{} calls on an image: {:?} {:?}", n, bin, text);
        }
    }
    Ok(())
}

// ------------------------------------------------------------ lengths
fn lengths(s: &mut Src, ctx: &mut Ctx) -> R {
    let (l, t) = plen(s);
    ctx.nontrivial = true;
    ctx.repr = t.clone();
    let mut c = ColStyle::new("c");
    eq("width of a new style", c.col_width().map_err(|e| e.to_string())?, Length::Default)?;
    c.set_col_width(l);
    eq("col_width", c.col_width().map_err(|e| e.to_string())?, l)?;
    let mut r = RowStyle::new("r");
    eq("height of a new style", r.row_height().map_err(|e| e.to_string())?, Length::Default)?;
    r.set_row_height(l);
    eq("row_height", r.row_height().map_err(|e| e.to_string())?, l)?;
    let (a, b) = (s.coin(), s.coin());
    eq("optimal width of a new style", c.use_optimal_col_width().map_err(|e| e.to_string())?, false)?;
    c.set_use_optimal_col_width(a);
    r.set_use_optimal_row_height(b);
    eq("use_optimal_col_width", c.use_optimal_col_width().map_err(|e| e.to_string())?, a)?;
    eq("use_optimal_row_height", r.use_optimal_row_height().map_err(|e| e.to_string())?, b)?;
    let u: MasterPageUsage = s.pickc(&[MasterPageUsage::All, MasterPageUsage::Left, MasterPageUsage::Mirrored, MasterPageUsage::Right]);
    let mut p = PageStyle::new("p");
    p.set_page_usage(u);
    eq("page_usage", p.page_usage().map_err(|e| e.to_string())?, Some(u))?;
    // the unit macros
    let v = num(s);
    let (i, w): (usize, Length) = match s.u(6) {
        0 => (0, cm!(v)),
        1 => (1, mm!(v)),
        2 => (2, inch!(v)),
        3 => (3, pt!(v)),
        4 => (4, pc!(v)),
        _ => (5, em!(v)),
    };
    eq("unit", w, [Length::Cm(v), Length::Mm(v), Length::In(v), Length::Pt(v), Length::Pc(v), Length::Em(v)][i])?;
    let (i, w): (usize, Angle) = match s.u(3) {
        0 => (0, deg!(v)),
        1 => (1, grad!(v)),
        _ => (2, rad!(v)),
    };
    eq("angle", w, [Angle::Deg(v), Angle::Grad(v), Angle::Rad(v)][i])?;
    let neg = unit(s, -1.0 - v).0;
    eq("sign", (l.is_positive(), neg.is_positive()), (true, false))?;
    // guards against invalid values
    let g = guard("negative padding", || CellStyle::new_empty().set_padding(neg));
    if g.is_ok() {
        return Err(format!("a padding of {:?} was accepted", neg));
    }
    Ok(())
}
