//! Recording OutputRenderer: the event log of a real render.
use std::cell::RefCell;
use std::rc::Rc;
use thermal_parser::command::DeviceCommand;
use thermal_parser::context::{Context, Font, Rotation, TextJustify};
use thermal_parser::graphics::{Image, ImageFlow, VectorGraphic, RGBA};
use thermal_parser::text::TextSpan;
use thermal_renderer::html_renderer::{HtmlRenderer, ReceiptHtml};
use thermal_renderer::image_renderer::{ImageRenderer, ReceiptImage};
use thermal_renderer::renderer::{DebugProfile, OutputRenderer, RenderOutput, Renderer};

pub type Rgba = (u8, u8, u8, u8);
pub fn rgba(c: &RGBA) -> Rgba { (c.r, c.g, c.b, c.a) }

#[derive(Clone, Debug, PartialEq)]
pub struct Span {
    pub text: String,
    pub font: Font,
    pub cw: u32, pub ch: u32, pub bcw: u32, pub bch: u32,
    pub bold: bool, pub italic: bool,
    pub underline: u32, pub strike: u32,
    pub inverted: bool, pub upside: bool,
    pub justify: TextJustify,
    pub fg: Rgba, pub bg: Rgba,
    /// x, y, w, h
    pub dim: Option<(u32, u32, u32, u32)>,
}
#[derive(Clone, Debug, PartialEq)]
pub struct Img { pub x: u32, pub y: u32, pub w: u32, pub h: u32, pub px: Vec<Rgba>, pub flow: u8, pub upside: bool }

#[derive(Clone, Debug, PartialEq)]
pub enum Ev {
    Begin { x: u32, y: u32 },
    Text { spans: Vec<Span>, x_offset: u32, max_height: u32, justify: TextJustify, page: bool },
    Image { img: Img, page: bool },
    Rects { rects: Vec<(u32, u32, u32, u32)>, color: Rgba, page: bool },
    PageBegin,
    PageArea { rot: u8, dir: u8, w: u32, h: u32 },
    PageEnd,
    /// position on the paper, direction 0..3 (clockwise quarter turns as the parameter of ESC T)
    PagePrint { x: u32, y: u32, dir: u8 },
    Device(String),
    End { x: u32, y: u32, width: u32, paper_w: u32, margins: (u32, u32) },
}

pub fn conv_span(s: &TextSpan) -> Span {
    Span {
        text: s.text.clone(), font: s.font.clone(),
        cw: s.character_width, ch: s.character_height, bcw: s.base_character_width, bch: s.base_character_height,
        bold: s.bold, italic: s.italic, underline: s.underline, strike: s.strikethrough,
        inverted: s.inverted, upside: s.upside_down, justify: s.justify.clone(),
        fg: rgba(&s.text_color), bg: rgba(&s.background_color),
        dim: s.dimensions.as_ref().map(|d| (d.x, d.y, d.w, d.h)),
    }
}
pub fn conv_img(i: &Image) -> Img {
    Img { x: i.x, y: i.y, w: i.w, h: i.h, px: i.pixels.iter().map(rgba).collect(),
        flow: match i.flow { ImageFlow::Inline => 0, ImageFlow::Block => 1, ImageFlow::None => 2 }, upside: i.upside_down }
}

#[derive(Clone, Default)]
pub struct Log { pub ev: Vec<Ev>, pub max_y: u64, pub page_px: u64, pub ends: usize }

pub struct Recorder { pub log: Rc<RefCell<Log>> }
impl Recorder {
    fn push(&mut self, c: &Context, e: Ev) {
        let mut l = self.log.borrow_mut();
        l.max_y = l.max_y.max(c.graphics.render_area.y as u64);
        let p = c.page_mode.page_area.w as u64 * c.page_mode.page_area.h as u64;
        l.page_px = l.page_px.max(p);
        l.ev.push(e);
    }
}

/// The direction of page mode as the parameter of ESC T.
fn direction(c: &Context) -> u8 {
    use thermal_parser::context::PrintDirection::*;
    match c.page_mode.direction { TopLeft2Right => 0, BottomLeft2Top => 1, BottomRight2Left => 2, TopRight2Bottom => 3 }
}

impl OutputRenderer<usize> for Recorder {
    fn set_debug_profile(&mut self, _p: DebugProfile) {}
    fn begin_render(&mut self, c: &mut Context) { let e = Ev::Begin { x: c.get_x(), y: c.get_y() }; self.push(c, e) }
    fn page_begin(&mut self, c: &mut Context) { self.push(c, Ev::PageBegin) }
    fn page_area_changed(&mut self, c: &mut Context, r: Rotation, w: u32, h: u32) {
        let rot = match r { Rotation::R0 => 0, Rotation::R90 => 1, Rotation::R180 => 2, Rotation::R270 => 3 };
        {
            let mut l = self.log.borrow_mut();
            l.page_px = l.page_px.max(w as u64 * h as u64);
        }
        let dir = direction(c);
        self.push(c, Ev::PageArea { rot, dir, w, h })
    }
    fn page_end(&mut self, c: &mut Context) { self.push(c, Ev::PageEnd) }
    fn render_page(&mut self, c: &mut Context) {
        let dir = direction(c);
        let e = Ev::PagePrint { x: c.graphics.render_area.x, y: c.graphics.render_area.y, dir };
        self.push(c, e)
    }
    fn render_graphics(&mut self, c: &mut Context, g: &Vec<VectorGraphic>) {
        let rects = g.iter().map(|v| match v { VectorGraphic::Rectangle(r) => (r.x, r.y, r.w, r.h) }).collect();
        let e = Ev::Rects { rects, color: rgba(&c.text.color), page: c.page_mode.enabled };
        self.push(c, e)
    }
    fn render_image(&mut self, c: &mut Context, i: &Image) { let e = Ev::Image { img: conv_img(i), page: c.page_mode.enabled }; self.push(c, e) }
    fn render_text(&mut self, c: &mut Context, s: &Vec<TextSpan>, x_offset: u32, max_height: u32, j: TextJustify) {
        let e = Ev::Text { spans: s.iter().map(conv_span).collect(), x_offset, max_height, justify: j, page: c.page_mode.enabled };
        self.push(c, e)
    }
    fn device_command(&mut self, c: &mut Context, d: &DeviceCommand) { let e = Ev::Device(d.as_string()); self.push(c, e) }
    fn end_render(&mut self, c: &mut Context) -> usize {
        let e = Ev::End { x: c.graphics.render_area.x, y: c.graphics.render_area.y, width: c.graphics.render_area.w,
            paper_w: c.graphics.paper_area.w, margins: (c.graphics.paper_area.x, c.graphics.paper_area.y) };
        self.push(c, e);
        let mut l = self.log.borrow_mut();
        l.ends += 1;
        l.ends - 1
    }
}

pub struct Recorded { pub log: Log, pub errors: Vec<String>, pub outputs: Vec<usize> }

pub fn record(bytes: &[u8]) -> Recorded { record_with(bytes, DebugProfile::default()) }

pub fn record_with(bytes: &[u8], p: DebugProfile) -> Recorded {
    let log = Rc::new(RefCell::new(Log::default()));
    let mut child: Box<dyn OutputRenderer<usize>> = Box::new(Recorder { log: log.clone() });
    let out = {
        let mut r = Renderer::new(&mut child, p);
        r.render(&bytes.to_vec())
    };
    let errors = out.errors.iter().map(|e| format!("{:?}", e)).collect();
    let l = log.borrow().clone();
    Recorded { log: l, errors, outputs: out.output }
}

/// Long-lived pixel renderers: building one parses eight fonts, so the hot loops reuse them
/// (a failure found this way is replayed with the same loop; C19 compares reuse with fresh ones).
pub struct Pixels { pub image: Box<dyn OutputRenderer<ReceiptImage>>, pub html: Box<dyn OutputRenderer<ReceiptHtml>> }
impl Pixels { pub fn new() -> Pixels { Pixels { image: Box::new(ImageRenderer::new()), html: Box::new(HtmlRenderer::new()) } } }
thread_local! { static PIXELS: RefCell<Option<Pixels>> = RefCell::new(None); }
fn with_pixels<T>(f: impl FnOnce(&mut Pixels) -> T) -> T {
    // taken out while in use: after a panic the next user builds new ones
    let mut p = PIXELS.with(|p| p.borrow_mut().take())
        .unwrap_or_else(Pixels::new);
    let t = f(&mut p);
    PIXELS.with(|q| *q.borrow_mut() = Some(p));
    t
}
pub fn image_of(bytes: &[u8], prof: Option<DebugProfile>) -> RenderOutput<ReceiptImage> {
    with_pixels(|p| Renderer::new(&mut p.image, prof.unwrap_or_default()).render(&bytes.to_vec()))
}
pub fn html_of(bytes: &[u8], prof: Option<DebugProfile>) -> RenderOutput<ReceiptHtml> {
    with_pixels(|p| Renderer::new(&mut p.html, prof.unwrap_or_default()).render(&bytes.to_vec()))
}

/// Records the layout handed to another renderer.
pub struct Tee<O> { pub rec: Recorder, pub inner: Box<dyn OutputRenderer<O>> }
impl<O> OutputRenderer<O> for Tee<O> {
    fn set_debug_profile(&mut self, p: DebugProfile) { self.inner.set_debug_profile(p) }
    fn begin_render(&mut self, c: &mut Context) { self.rec.begin_render(c); self.inner.begin_render(c) }
    fn page_begin(&mut self, c: &mut Context) { self.rec.page_begin(c); self.inner.page_begin(c) }
    fn page_area_changed(&mut self, c: &mut Context, r: Rotation, w: u32, h: u32) { self.rec.page_area_changed(c, match r { Rotation::R0 => Rotation::R0, Rotation::R90 => Rotation::R90, Rotation::R180 => Rotation::R180, Rotation::R270 => Rotation::R270 }, w, h); self.inner.page_area_changed(c, r, w, h) }
    fn page_end(&mut self, c: &mut Context) { self.rec.page_end(c); self.inner.page_end(c) }
    fn render_page(&mut self, c: &mut Context) { self.rec.render_page(c); self.inner.render_page(c) }
    fn render_graphics(&mut self, c: &mut Context, g: &Vec<VectorGraphic>) { self.rec.render_graphics(c, g); self.inner.render_graphics(c, g) }
    fn render_image(&mut self, c: &mut Context, i: &Image) { self.rec.render_image(c, i); self.inner.render_image(c, i) }
    fn render_text(&mut self, c: &mut Context, s: &Vec<TextSpan>, x: u32, h: u32, j: TextJustify) { self.rec.render_text(c, s, x, h, j.clone()); self.inner.render_text(c, s, x, h, j) }
    fn device_command(&mut self, c: &mut Context, d: &DeviceCommand) { self.rec.device_command(c, d); self.inner.device_command(c, d) }
    fn get_render_errors(&mut self) -> Vec<String> { self.inner.get_render_errors() }
    fn end_render(&mut self, c: &mut Context) -> O { self.rec.end_render(c); self.inner.end_render(c) }
}

/// What a layout asks for, without keeping it.
#[derive(Default, Clone)]
pub struct Extent { pub max_y: u64, pub paper: u64, pub page_px: u64, pub pages: u64, pub errors: usize }
struct Counter(Rc<RefCell<Extent>>);
impl Counter {
    fn see(&self, c: &Context) {
        let mut e = self.0.borrow_mut();
        e.max_y = e.max_y.max(c.graphics.render_area.y as u64);
        e.page_px = e.page_px.max(c.page_mode.page_area.w as u64 * c.page_mode.page_area.h as u64);
    }
}
impl OutputRenderer<()> for Counter {
    fn set_debug_profile(&mut self, _p: DebugProfile) {}
    fn begin_render(&mut self, c: &mut Context) { self.see(c) }
    fn page_begin(&mut self, c: &mut Context) { self.see(c) }
    fn page_area_changed(&mut self, c: &mut Context, _: Rotation, w: u32, h: u32) { self.see(c); let mut e = self.0.borrow_mut(); e.page_px = e.page_px.max(w as u64 * h as u64); e.pages += 1; }
    fn render_page(&mut self, c: &mut Context) { self.see(c); self.0.borrow_mut().pages += 1; }
    fn render_graphics(&mut self, c: &mut Context, g: &Vec<VectorGraphic>) { self.see(c); for v in g { let VectorGraphic::Rectangle(r) = v; let mut e = self.0.borrow_mut(); e.max_y = e.max_y.max(r.y as u64 + r.h as u64); } }
    fn render_image(&mut self, c: &mut Context, i: &Image) { self.see(c); let mut e = self.0.borrow_mut(); e.max_y = e.max_y.max(i.y as u64 + i.h as u64); }
    fn render_text(&mut self, c: &mut Context, s: &Vec<TextSpan>, _: u32, h: u32, _: TextJustify) { self.see(c); for d in s.iter().filter_map(|s| s.dimensions.as_ref()) { let mut e = self.0.borrow_mut(); e.max_y = e.max_y.max(d.y as u64 + d.h.max(h) as u64); } }
    fn end_render(&mut self, c: &mut Context) { self.see(c); let mut e = self.0.borrow_mut(); e.paper += e.max_y; e.max_y = 0; }
}
pub fn count_only(bytes: &[u8]) -> Extent {
    let e = Rc::new(RefCell::new(Extent::default()));
    let mut child: Box<dyn OutputRenderer<()>> = Box::new(Counter(e.clone()));
    let n = { let mut r = Renderer::new(&mut child, DebugProfile::default()); r.render(&bytes.to_vec()).errors.len() };
    let mut x = e.borrow().clone();
    x.errors = n;
    x
}
