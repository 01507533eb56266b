//! What the public interface shows of a section.

use crate::doc::{Lines, f, hex, nest, o, q};
use onenote_parser::contents::*;
use onenote_parser::notebook::Notebook;
use onenote_parser::page::*;
use onenote_parser::property::common::{Color, ColorRef};
use onenote_parser::section::*;

fn color(c: Option<Color>) -> String {
    o(c, |c| format!("{},{},{},{}", c.alpha(), c.r(), c.g(), c.b()))
}
fn cref(c: Option<ColorRef>) -> String {
    o(c, |c| match c {
        ColorRef::Auto => "auto".into(),
        ColorRef::Manual { r, g, b } => format!("{r},{g},{b}"),
    })
}
fn list<T>(v: &[T], g: impl Fn(&T) -> String) -> String {
    v.iter().map(g).collect::<Vec<_>>().join(",")
}
fn dbg<T: std::fmt::Debug>(x: Option<T>) -> String {
    o(x, |x| format!("{x:?}"))
}
fn num<T: ToString>(x: Option<T>) -> String {
    o(x, |x| x.to_string())
}

struct D(Lines);
impl D {
    fn l(&mut self, label: &str, v: String) {
        self.0.push(format!("{label}={v}"))
    }
    fn sub(&mut self, l: Lines) {
        self.0.extend(l.into_iter().map(|l| format!("  {l}")))
    }
}

pub fn section(s: &Section) -> Lines {
    let mut d = D(vec![]);
    d.l("name", q(s.display_name()));
    d.l("color", color(s.color()));
    d.l("series", s.page_series().len().to_string());
    for p in s.page_series() {
        d.0.push(format!("  pages={}", p.pages().len()));
        for p in p.pages() {
            d.0.push("    page:".into());
            d.0.extend(page(p).into_iter().map(|l| format!("      {l}")));
        }
    }
    d.0
}

fn page(p: &Page) -> Lines {
    let mut d = D(vec![]);
    d.l("level", p.level().to_string());
    d.l("author", o(p.author(), q));
    d.l("height", o(p.height(), f));
    match p.title() {
        None => d.l("title", "-".into()),
        Some(t) => {
            let mut e = D(vec![]);
            e.l("x", f(t.offset_horizontal()));
            e.l("y", f(t.offset_vertical()));
            e.l("align_parent", dbg(t.layout_alignment_in_parent()));
            e.l("align_self", dbg(t.layout_alignment_self()));
            e.l("outlines", t.contents().len().to_string());
            for x in t.contents() {
                nest(&mut e.0, "outline", outline(x));
            }
            nest(&mut d.0, "title", e.0);
        }
    }
    d.l("contents", p.contents().len().to_string());
    for c in p.contents() {
        let mut s = vec![];
        match c {
            PageContent::Outline(x) => nest(&mut s, "outline", outline(x)),
            PageContent::Image(x) => nest(&mut s, "image", image(x)),
            PageContent::EmbeddedFile(x) => nest(&mut s, "file", file(x)),
            PageContent::Ink(x) => nest(&mut s, "ink", ink(x)),
            PageContent::Unknown => s.push("unknown".into()),
        }
        d.sub(s);
    }
    d.0
}

fn outline(x: &Outline) -> Lines {
    let mut d = D(vec![]);
    d.l("level", x.child_level().to_string());
    d.l("spacing", o(x.list_spacing(), f));
    d.l("indents", list(x.indents(), |x| f(*x)));
    d.l("align_parent", dbg(x.alignment_in_parent()));
    d.l("align_self", dbg(x.alignment_self()));
    d.l("max_height", o(x.layout_max_height(), f));
    d.l("max_width", o(x.layout_max_width(), f));
    d.l("reserved", o(x.layout_reserved_width(), f));
    d.l("minimum", o(x.layout_minimum_outline_width(), f));
    d.l("by_user", x.is_layout_size_set_by_user().to_string());
    d.l("x", o(x.offset_horizontal(), f));
    d.l("y", o(x.offset_vertical(), f));
    items(&mut d, "items", x.items());
    d.0
}

fn items(d: &mut D, label: &str, v: &[OutlineItem]) {
    d.l(label, v.len().to_string());
    for i in v {
        let mut s = vec![];
        match i {
            OutlineItem::Group(g) => {
                let mut e = D(vec![]);
                e.l("level", g.child_level().to_string());
                items(&mut e, "items", g.outlines());
                nest(&mut s, "group", e.0);
            }
            OutlineItem::Element(x) => nest(&mut s, "element", element(x)),
        }
        d.sub(s);
    }
}

fn element(x: &OutlineElement) -> Lines {
    let mut d = D(vec![]);
    d.l("level", x.child_level().to_string());
    d.l("spacing", o(x.list_spacing(), f));
    d.l("contents", x.contents().len().to_string());
    for c in x.contents() {
        let mut s = vec![];
        match c {
            Content::RichText(x) => nest(&mut s, "text", text(x)),
            Content::Table(x) => nest(&mut s, "table", table(x)),
            Content::Image(x) => nest(&mut s, "image", image(x)),
            Content::EmbeddedFile(x) => nest(&mut s, "file", file(x)),
            Content::Ink(x) => nest(&mut s, "ink", ink(x)),
            Content::Unknown => s.push("unknown".into()),
        }
        d.sub(s);
    }
    d.l("lists", x.list_contents().len().to_string());
    for l in x.list_contents() {
        let mut e = D(vec![]);
        e.l("list_font", o(l.list_font(), q));
        e.l("restart", num(l.list_restart()));
        e.l("format", format!("{:?}", l.list_format()));
        e.l("bold", l.bold().to_string());
        e.l("italic", l.italic().to_string());
        e.l("font", o(l.font(), q));
        e.l("size", num(l.font_size()));
        e.l("color", cref(l.font_color()));
        nest(&mut d.0, "list", e.0);
    }
    items(&mut d, "children", x.children());
    d.0
}

fn tags(d: &mut D, v: &[NoteTag]) {
    d.l("tags", v.len().to_string());
    for t in v {
        let mut e = D(vec![]);
        e.l("completed", dbg(t.completed_at()));
        let s = t.item_status();
        e.l("state", format!("{},{},{}", s.completed(), s.disabled(), s.task_tag()));
        match t.definition() {
            None => e.l("definition", "-".into()),
            Some(t) => {
                let mut c = D(vec![]);
                c.l("label", q(t.label()));
                let s = t.status();
                let bits = [
                    s.has_label(), s.has_font_color(), s.has_highlight_color(), s.has_icon(), s.due_today(),
                    s.due_tomorrow(), s.due_this_week(), s.due_next_week(), s.due_later(), s.due_custom(),
                ];
                c.l("status", bits.iter().map(|b| if *b { '1' } else { '0' }).collect());
                c.l("shape", format!("{:?}", t.shape()));
                c.l("highlight", cref(t.highlight_color()));
                c.l("text_color", cref(t.text_color()));
                c.l("action", format!("{:?}", t.action_item_type()));
                nest(&mut e.0, "definition", c.0);
            }
        }
        nest(&mut d.0, "tag", e.0);
    }
}

fn style(x: &ParagraphStyling) -> Lines {
    let mut d = D(vec![]);
    d.l("charset", dbg(x.charset()));
    for (l, b) in [
        ("bold", x.bold()), ("italic", x.italic()), ("underline", x.underline()), ("strike", x.strikethrough()),
        ("super", x.superscript()), ("sub", x.subscript()),
    ] {
        d.l(l, b.to_string());
    }
    d.l("font", o(x.font(), q));
    d.l("size", num(x.font_size()));
    d.l("color", cref(x.font_color()));
    d.l("highlight", cref(x.highlight()));
    d.l("next", o(x.next_style(), q));
    d.l("id", o(x.style_id(), q));
    d.l("align", dbg(x.paragraph_alignment()));
    d.l("before", o(x.paragraph_space_before(), f));
    d.l("after", o(x.paragraph_space_after(), f));
    d.l("exact", o(x.paragraph_line_spacing_exact(), f));
    d.l("lang", num(x.language_code()));
    d.l("math", x.math_formatting().to_string());
    d.l("link", x.hyperlink().to_string());
    d.0
}

fn text(x: &RichText) -> Lines {
    let mut d = D(vec![]);
    d.l("text", q(x.text()));
    d.l("indices", list(x.text_run_indices(), |x| x.to_string()));
    nest(&mut d.0, "style", style(x.paragraph_style()));
    d.l("runs", x.text_run_formatting().len().to_string());
    for s in x.text_run_formatting() {
        nest(&mut d.0, "run", style(s));
    }
    let math: Vec<String> = x
        .math_inline_objects()
        .iter()
        .map(|m| {
            format!(
                "{:?} {} {} {} {} {} {}",
                m.object_type(), m.arg_count(), num(m.column()), num(m.align()), dbg(m.char()), dbg(m.char1()), dbg(m.char2())
            )
        })
        .collect();
    d.l("math", math.join("; "));
    d.l("objects", x.embedded_objects().len().to_string());
    for e in x.embedded_objects() {
        let mut l = vec![];
        match e {
            EmbeddedObject::InkSpace(s) => l.push(format!("space={},{}", f(s.width()), f(s.height()))),
            EmbeddedObject::InkLineBreak => l.push("break".into()),
            EmbeddedObject::Ink(i) => {
                l.extend(ink(i.ink()));
                l.push(format!(
                    "box={}",
                    o(i.bounding_box(), |b| format!("{},{},{},{}", f(b.x()), f(b.y()), f(b.height()), f(b.width())))
                ));
            }
        }
        nest(&mut d.0, "object", l);
    }
    d.l("before", f(x.paragraph_space_before()));
    d.l("after", f(x.paragraph_space_after()));
    d.l("exact", o(x.paragraph_line_spacing_exact(), f));
    d.l("align", format!("{:?}", x.paragraph_alignment()));
    d.l("align_parent", dbg(x.layout_alignment_in_parent()));
    d.l("align_self", dbg(x.layout_alignment_self()));
    tags(&mut d, x.note_tags());
    d.0
}

fn image(x: &Image) -> Lines {
    let mut d = D(vec![]);
    d.l("data", o(x.data(), hex));
    d.l("extension", o(x.extension(), q));
    d.l("max_width", o(x.layout_max_width(), f));
    d.l("max_height", o(x.layout_max_height(), f));
    d.l("alt", o(x.alt_text(), q));
    d.l("align_parent", dbg(x.layout_alignment_in_parent()));
    d.l("align_self", dbg(x.layout_alignment_self()));
    d.l("filename", o(x.image_filename(), q));
    d.l("page", num(x.displayed_page_number()));
    d.l("text", o(x.text(), q));
    d.l("lang", num(x.text_language_code()));
    d.l("width", o(x.picture_width(), f));
    d.l("height", o(x.picture_height(), f));
    d.l("url", o(x.hyperlink_url(), q));
    d.l("x", o(x.offset_horizontal(), f));
    d.l("y", o(x.offset_vertical(), f));
    d.l("background", x.is_background().to_string());
    tags(&mut d, x.note_tags());
    d.l("embeds", x.embeds().len().to_string());
    for e in x.embeds() {
        let l = vec![format!("type={}", num(e.embed_type())), format!("url={}", q(e.source_url()))];
        nest(&mut d.0, "embed", l);
    }
    d.0
}

fn file(x: &EmbeddedFile) -> Lines {
    let mut d = D(vec![]);
    d.l("filename", q(x.filename()));
    d.l("type", format!("{:?}", x.file_type()));
    d.l("data", hex(x.data()));
    d.l("max_width", o(x.layout_max_width(), f));
    d.l("max_height", o(x.layout_max_height(), f));
    d.l("x", o(x.offset_horizontal(), f));
    d.l("y", o(x.offset_vertical(), f));
    tags(&mut d, x.note_tags());
    d.0
}

fn ink(x: &Ink) -> Lines {
    let mut d = D(vec![]);
    d.l("strokes", x.ink_strokes().len().to_string());
    for s in x.ink_strokes() {
        let mut e = D(vec![]);
        let p: Vec<String> = s.path().iter().map(|p| format!("{},{}", f(p.x()), f(p.y()))).collect();
        e.l("path", p.join(" "));
        e.l("tip", num(s.pen_tip()));
        e.l("transparency", num(s.transparency()));
        e.l("height", f(s.height()));
        e.l("width", f(s.width()));
        e.l("color", num(s.color()));
        nest(&mut d.0, "stroke", e.0);
    }
    d.l(
        "bounds",
        o(x.bounding_box(), |b| format!("{},{},{},{}", f(b.x()), f(b.y()), f(b.height()), f(b.width()))),
    );
    d.l("offset", format!("{},{}", o(x.offset_horizontal(), f), o(x.offset_vertical(), f)));
    d.0
}

fn table(x: &Table) -> Lines {
    let mut d = D(vec![]);
    d.l("rows", x.rows().to_string());
    d.l("cols", x.cols().to_string());
    d.l("locked", hex(x.cols_locked()));
    d.l("widths", list(x.col_widths(), |x| f(*x)));
    d.l("borders", x.borders_visible().to_string());
    d.l("align_parent", dbg(x.layout_alignment_in_parent()));
    d.l("align_self", dbg(x.layout_alignment_self()));
    tags(&mut d, x.note_tags());
    d.l("contents", x.contents().len().to_string());
    for r in x.contents() {
        let mut e = D(vec![]);
        e.l("cells", r.contents().len().to_string());
        for c in r.contents() {
            let mut g = D(vec![]);
            g.l("background", color(c.background_color()));
            g.l("max_width", o(c.layout_max_width(), f));
            g.l("indents", list(c.outline_indent_distance().value(), |x| f(*x)));
            g.l("elements", c.contents().len().to_string());
            for x in c.contents() {
                nest(&mut g.0, "element", element(x));
            }
            nest(&mut e.0, "cell", g.0);
        }
        nest(&mut d.0, "row", e.0);
    }
    d.0
}

pub fn notebook(n: &Notebook) -> Lines {
    let mut d = D(vec![]);
    d.l("color", color(n.color()));
    entries(&mut d, n.entries());
    d.0
}

fn entries(d: &mut D, v: &[SectionEntry]) {
    d.l("entries", v.len().to_string());
    for e in v {
        let mut l = vec![];
        match e {
            SectionEntry::Section(s) => nest(&mut l, "section", section(s)),
            SectionEntry::SectionGroup(g) => {
                let mut e = D(vec![]);
                e.l("name", q(g.display_name()));
                entries(&mut e, g.entries());
                nest(&mut l, "group", e.0);
            }
        }
        d.sub(l);
    }
}
