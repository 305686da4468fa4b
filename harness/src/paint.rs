//! Rasterises the display lists that the specification derives, and compares images.
use ab_glyph::FontRef;
use image::{Rgb, RgbImage};
use serde_json::{json, Value};

pub const FONT: &[u8] = include_bytes!("/repo/resources/Roboto-Medium.ttf");

pub fn u(v: &Value) -> u32 {
    v.as_u64().expect("number") as u32
}

fn colour(v: &Value) -> Rgb<u8> {
    match v.as_str().expect("colour") {
        "black" => Rgb([0, 0, 0]),
        "white" => Rgb([255, 255, 255]),
        "red" => Rgb([255, 0, 0]),
        "gray" => Rgb([105, 105, 105]),
        other => panic!("harness: colour {other}"),
    }
}

/// Background images: {"k":"solid","c":[r,g,b]} or {"k":"noise","seed":n}
pub fn background(w: u32, h: u32, bg: &Value) -> RgbImage {
    match bg["k"].as_str().expect("bg kind") {
        "solid" => {
            let c = &bg["c"];
            RgbImage::from_pixel(w, h, Rgb([u(&c[0]) as u8, u(&c[1]) as u8, u(&c[2]) as u8]))
        }
        "noise" => {
            let mut s = bg["seed"].as_u64().expect("seed").wrapping_mul(2654435769).wrapping_add(1);
            RgbImage::from_fn(w, h, |_, _| {
                s ^= s << 13;
                s ^= s >> 7;
                s ^= s << 17;
                let b = (s >> 24) as u32;
                Rgb([b as u8, (b >> 8) as u8, (b >> 16) as u8])
            })
        }
        // pixels of the colours the library draws with, and their neighbours
        "mix" => {
            const C: [[u8; 3]; 8] = [[0, 0, 0], [255, 255, 255], [255, 0, 0], [105, 105, 105], [0, 0, 0], [255, 255, 254], [0, 0, 1], [254, 0, 0]];
            let mut s = bg["seed"].as_u64().expect("seed").wrapping_mul(2654435769).wrapping_add(1);
            RgbImage::from_fn(w, h, |_, _| {
                s ^= s << 13;
                s ^= s >> 7;
                s ^= s << 17;
                Rgb(C[(s >> 24) as usize % C.len()])
            })
        }
        other => panic!("harness: background {other}"),
    }
}

/// Paints the operations of a display list, later ones over earlier ones.
pub fn paint(img: &mut RgbImage, ops: &Value) -> Result<(), String> {
    let font = FontRef::try_from_slice(FONT).expect("font");
    for op in ops.as_array().expect("ops") {
        let c = colour(&op["c"]);
        match op["t"].as_str().expect("op type") {
            "rect" => {
                let (x, y, w, h) = (u(&op["x"]), u(&op["y"]), u(&op["w"]), u(&op["h"]));
                if x + w > img.width() || y + h > img.height() {
                    return Err(format!("expected rectangle {x},{y} {w}x{h} outside image"));
                }
                for j in y..y + h {
                    for i in x..x + w {
                        img.put_pixel(i, j, c);
                    }
                }
            }
            "text" => imageproc::drawing::draw_text_mut(
                img,
                c,
                u(&op["x"]) as i32,
                u(&op["y"]) as i32,
                u(&op["size"]) as f32,
                &font,
                op["s"].as_str().expect("text"),
            ),
            other => panic!("harness: op {other}"),
        }
    }
    Ok(())
}

/// Compares the picture the library produced with the one the specification describes.
pub fn compare(got: &RgbImage, exp: &Value, base: Option<RgbImage>) -> Value {
    let (w, h) = (u(&exp["w"]), u(&exp["h"]));
    let mut o = json!({"k": "ok", "w": got.width(), "h": got.height(), "eq": false, "diff": []});
    let mut want = base.unwrap_or_else(|| RgbImage::from_pixel(w, h, Rgb([255, 255, 255])));
    if want.dimensions() != got.dimensions() {
        o["diff"] = json!(["dimensions", want.width(), want.height()]);
        return o;
    }
    if let Err(e) = paint(&mut want, &exp["ops"]) {
        o["diff"] = json!([e]);
        return o;
    }
    for (x, y, p) in want.enumerate_pixels() {
        let q = got.get_pixel(x, y);
        if p != q {
            o["diff"] = json!(["pixel", x, y, "expected", p.0, "got", q.0]);
            return o;
        }
    }
    o["eq"] = json!(true);
    o
}

pub fn hash(img: &RgbImage) -> String {
    let mut h: u64 = 0xcbf29ce484222325;
    for b in img.as_raw() {
        h = (h ^ *b as u64).wrapping_mul(0x100000001b3);
    }
    format!("{}x{}:{:016x}", img.width(), img.height(), h)
}
