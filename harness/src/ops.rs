use crate::{fence, paint};
use image::RgbImage;
use paint::u;
use puzzle_utils::*;
use serde_json::{json, Map, Value};
use std::panic::{catch_unwind, AssertUnwindSafe};

/// Runs one case; a panic in it is an outcome like any other.
pub fn run_caught(case: &Value) -> Value {
    match catch_unwind(AssertUnwindSafe(|| run(case))) {
        Ok(v) => v,
        Err(p) => {
            let msg = p
                .downcast_ref::<String>()
                .cloned()
                .or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string()))
                .unwrap_or_default();
            if msg.starts_with("harness:") {
                eprintln!("{msg}");
                std::process::exit(3);
            }
            json!({"k": "panic", "msg": msg})
        }
    }
}

fn num(n: usize) -> Value {
    json!(n.min(2_000_000_000))
}
fn cps(s: &str) -> Value {
    json!(s.chars().map(|c| c as u32).collect::<Vec<_>>())
}
fn text(v: &Value) -> String {
    v.as_array()
        .expect("harness: text")
        .iter()
        .map(|c| char::from_u32(u(c)).expect("harness: char"))
        .collect()
}
fn bytes(v: &Value) -> Vec<u8> {
    v.as_array().expect("harness: bytes").iter().map(|x| u(x) as u8).collect()
}
/// Numbers may come as text, because the integers of TLC end at 2^31.
fn number(v: &Value) -> usize {
    match v.as_str() {
        Some(s) => s.parse().expect("harness: number"),
        None => u(v) as usize,
    }
}

fn rules(v: &Value) -> Vec<Vec<usize>> {
    v.as_array()
        .expect("harness: rules")
        .iter()
        .map(|r| r.as_array().expect("harness: rule").iter().map(number).collect())
        .collect()
}

#[allow(unreachable_patterns)]
fn maze_err(e: &MazeError) -> Value {
    match e {
        MazeError::InvalidDimensions => json!({"k": "err", "e": "InvalidDimensions"}),
        MazeError::InvalidSolution => json!({"k": "err", "e": "InvalidSolution"}),
        _ => json!({"k": "err", "e": "Other"}),
    }
}
#[allow(unreachable_patterns)]
fn sudoku_err(e: &SudokuError) -> Value {
    match e {
        SudokuError::InvalidInteger(c) => json!({"k": "err", "e": "InvalidInteger", "c": *c as u32}),
        SudokuError::InvalidSize(n) => json!({"k": "err", "e": "InvalidSize", "n": num(*n)}),
        SudokuError::NoSolution => json!({"k": "err", "e": "NoSolution"}),
        _ => json!({"k": "err", "e": "Other"}),
    }
}
#[allow(unreachable_patterns)]
fn nono_err(e: &NonogramError) -> Value {
    match e {
        NonogramError::EmptyPuzzle => json!({"k": "err", "e": "EmptyPuzzle"}),
        NonogramError::InvalidRule(t) => json!({"k": "err", "e": "InvalidRule", "t": cps(t)}),
        NonogramError::InvalidRuleDimension => json!({"k": "err", "e": "InvalidRuleDimension"}),
        NonogramError::NoSolution => json!({"k": "err", "e": "NoSolution"}),
        NonogramError::InvalidDimensions => json!({"k": "err", "e": "InvalidDimensions"}),
        _ => json!({"k": "err", "e": "Other"}),
    }
}

fn node(right: bool, down: bool) -> MazeNode {
    serde_json::from_value(json!({"right": right, "down": down})).unwrap_or_else(|_| panic!("a stored cell cannot be read back"))
}
fn grid(right: &Value, down: &Value) -> Vec<MazeNode> {
    bytes(right).iter().zip(bytes(down)).map(|(&r, d)| node(r == 1, d == 1)).collect()
}
/// The value stored and read back, in every way there is: JSON as text, bytes, stream and tree, CBOR, bincode.
/// Returns what each gave, as a JSON tree; "lost" where it could not be stored or read.
fn stored<T: serde::Serialize + serde::de::DeserializeOwned>(v: &T) -> Value {
    let show = |r: Option<T>| r.and_then(|t| serde_json::to_value(&t).ok()).unwrap_or(json!("lost"));
    let text = serde_json::to_string(v).unwrap_or_default();
    let pretty = serde_json::to_string_pretty(v).unwrap_or_default();
    let bytes = serde_json::to_vec(v).unwrap_or_default();
    let mut cbor = Vec::new();
    let cb = ciborium::into_writer(v, &mut cbor).is_ok();
    let bin = bincode::serialize(v).unwrap_or_default();
    json!([
        show(serde_json::from_str(&text).ok()),
        show(serde_json::from_str(&pretty).ok()),
        show(serde_json::from_slice(&bytes).ok()),
        show(serde_json::from_reader(&bytes[..]).ok()),
        show(serde_json::to_value(v).ok().and_then(|t| serde_json::from_value(t).ok())),
        show(if cb { ciborium::from_reader(&cbor[..]).ok() } else { None }),
        show(bincode::deserialize(&bin).ok()),
        show(bincode::deserialize_from(&bin[..]).ok()),
    ])
}
fn dirs(v: &Value) -> Vec<MazeDirection> {
    v.as_array()
        .expect("harness: dirs")
        .iter()
        .map(|d| serde_json::from_value(d.clone()).unwrap_or_else(|_| panic!("a stored direction cannot be read back")))
        .collect()
}
/// Wall flags (1 = wall) of the cells, observed through their serialised form.
fn walls(g: &[MazeNode], field: &str) -> Vec<u8> {
    g.iter()
        .map(|n| match serde_json::to_value(n).expect("a cell serialises").get(field) {
            Some(Value::Bool(b)) => *b as u8,
            _ => 9,
        })
        .collect()
}
fn maze_out(g: &[MazeNode], s: &[MazeDirection]) -> Value {
    json!({"k": "ok", "right": walls(g, "right"), "down": walls(g, "down"),
           "sol": s.iter().map(|d| serde_json::to_value(d).expect("a direction serialises")).collect::<Vec<_>>()})
}
fn size(case: &Value) -> (usize, usize) {
    (u(&case["w"]) as usize, u(&case["h"]) as usize)
}
fn make(w: usize, h: usize) -> (Vec<MazeNode>, Vec<MazeDirection>) {
    create_maze(w, h, MazeAlgorithm::RecursiveBacktrack)
}

/// For each cell the next one on the way to the top-left cell, if there is exactly one way for every cell.
fn parents(w: usize, h: usize, right: &[u8], down: &[u8]) -> Option<Vec<usize>> {
    if right.len() != w * h || down.len() != w * h {
        return None;
    }
    let mut parent = vec![usize::MAX; w * h];
    let mut seen = vec![false; w * h];
    seen[0] = true;
    let mut todo = vec![0];
    while let Some(c) = todo.pop() {
        let mut near = vec![];
        if c % w + 1 < w && right[c] == 0 { near.push(c + 1) }
        if c + w < w * h && down[c] == 0 { near.push(c + w) }
        if c % w > 0 && right[c - 1] == 0 { near.push(c - 1) }
        if c >= w && down[c - w] == 0 { near.push(c - w) }
        for n in near {
            if n == parent[c] {
                continue;
            }
            if seen[n] {
                return None;
            }
            seen[n] = true;
            parent[n] = c;
            todo.push(n);
        }
    }
    seen.iter().all(|&s| s).then_some(parent)
}

fn code(p: &image::Rgb<u8>) -> u8 {
    match p.0 {
        [0, 0, 0] => 0,
        [255, 255, 255] => 1,
        [255, 0, 0] => 2,
        _ => 9,
    }
}
fn pixels(img: &RgbImage) -> Value {
    json!((0..img.height())
        .map(|y| (0..img.width()).map(|x| code(img.get_pixel(x, y))).collect::<Vec<_>>())
        .collect::<Vec<_>>())
}

/// The picture compared with the specification's display list; small ones also pixel by pixel.
fn shown(img: &RgbImage, case: &Value, base: Option<RgbImage>) -> Value {
    let mut o = match case["exp"]["k"].as_str() {
        Some("ok") => paint::compare(img, &case["exp"], base),
        _ => json!({"k": "ok", "w": img.width(), "h": img.height(), "eq": false, "diff": ["unexpected success"]}),
    };
    if case["px"] == true {
        o["px"] = pixels(img);
    }
    o
}

fn base(case: &Value) -> RgbImage {
    paint::background(u(&case["iw"]), u(&case["ih"]), &case["bg"])
}

fn sudoku_out(r: Result<Vec<u8>, SudokuError>) -> Value {
    match r {
        Ok(v) => json!({"k": "ok", "v": v}),
        Err(e) => sudoku_err(&e),
    }
}

fn nono_out(r: Result<Vec<bool>, NonogramError>) -> Value {
    match r {
        Ok(v) => json!({"k": "ok", "v": v.iter().map(|&b| b as u8).collect::<Vec<_>>()}),
        Err(e) => nono_err(&e),
    }
}

fn digits(n: usize) -> Value {
    json!(n.to_string().bytes().map(|b| b - b'0').collect::<Vec<_>>())
}

/// Pictures with at most this many bytes are recorded with the whole file.
const FILE_MAX: usize = 6000;

fn png_round_trip(img: &RgbImage) -> Value {
    match image_to_png_bytes(img) {
        Err(_) => json!({"k": "err", "e": "Image"}),
        Ok(b) => {
            let sig = b.starts_with(&[0x89, b'P', b'N', b'G', 0x0d, 0x0a, 0x1a, 0x0a]);
            match image::load_from_memory_with_format(&b, image::ImageFormat::Png) {
                Err(_) => json!({"k": "ok", "png": sig, "dec": false}),
                Ok(d) => {
                    let opaque = !d.color().has_alpha() || d.to_rgba16().pixels().all(|p| p.0[3] == u16::MAX);
                    let d = d.to_rgb8();
                    let first = img.as_raw().iter().zip(d.as_raw()).position(|(a, b)| a != b);
                    json!({"k": "ok", "png": sig, "dec": true, "opaque": opaque, "w": d.width(), "h": d.height(),
                           "eq": first.is_none() && d.as_raw().len() == img.as_raw().len(),
                           "at": first.map_or(-1, |x| x as i64),
                           "raw": if d.as_raw().len() <= 600 { json!(d.as_raw()) } else { json!([]) },
                           "file": if img.as_raw().len() <= FILE_MAX && b.len() <= 2 * FILE_MAX { json!(b) } else { json!([]) }})
                }
            }
        }
    }
}

pub fn run(case: &Value) -> Value {
    match case["op"].as_str().expect("harness: op") {
        "create_maze" => {
            let (w, h) = size(case);
            let (g, s) = make(w, h);
            maze_out(&g, &s)
        }
        "maze_steps" => {
            let (w, h) = size(case);
            let len = u(&case["len"]) as usize;
            let mut seen = std::collections::BTreeMap::<Vec<usize>, u64>::new();
            let mut bad = 0u64;
            for _ in 0..u(&case["n"]) {
                let (g, _) = make(w, h);
                match parents(w, h, &walls(&g, "right"), &walls(&g, "down")) {
                    None => bad += 1,
                    Some(parent) => {
                        for c in 0..w * h {
                            let mut chain = vec![c];
                            while chain.len() <= len && parent[chain[0]] != usize::MAX {
                                chain.insert(0, parent[chain[0]]);
                            }
                            if chain.len() == len + 1 {
                                *seen.entry(chain).or_insert(0) += 1;
                            }
                        }
                    }
                }
            }
            json!({"k": "ok", "bad": bad, "rarest": seen.values().min(), "seen": seen.keys().collect::<Vec<_>>()})
        }
        // which ways of len steps occur, wherever they begin; as cells of a field of side 2 * len + 3, from its centre
        "maze_words" => {
            let (w, h) = size(case);
            let len = u(&case["len"]) as usize;
            let side = 2 * len + 3;
            let mut seen = std::collections::HashMap::<u64, u64>::new();
            let mut bad = 0u64;
            for _ in 0..u(&case["n"]) {
                let (g, _) = make(w, h);
                match parents(w, h, &walls(&g, "right"), &walls(&g, "down")) {
                    None => bad += 1,
                    Some(parent) => {
                        for c in 1..w * h {
                            let (mut at, mut key, mut k) = (c, 0u64, 0);
                            while k < len && at != 0 {
                                let p = parent[at];
                                let d = if at == p + w && w > 1 { 1 } else if at == p + 1 { 0 } else if at + 1 == p { 2 } else { 3 };
                                key |= d << (2 * k);
                                at = p;
                                k += 1;
                            }
                            if k == len {
                                *seen.entry(key).or_insert(0) += 1;
                            }
                        }
                    }
                }
            }
            let cells = |key: u64| {
                let mut at = (side * side / 2) as i64;
                let mut v = vec![at];
                for k in (0..len).rev() {
                    at += [1, side as i64, -1, -(side as i64)][(key >> (2 * k) & 3) as usize];
                    v.push(at);
                }
                v
            };
            let want: Vec<Vec<i64>> = case["want"].as_array().map_or(vec![], |a| {
                a.iter().map(|p| p.as_array().expect("harness: path").iter().map(|x| x.as_i64().expect("harness: cell")).collect()).collect()
            });
            let all: Vec<(Vec<i64>, u64)> = seen.iter().map(|(k, n)| (cells(*k), *n)).collect();
            if want.is_empty() {
                json!({"k": "ok", "bad": bad, "rarest": seen.values().min(), "seen": all.iter().map(|(p, _)| p).collect::<Vec<_>>()})
            } else {
                let m: std::collections::HashMap<_, _> = all.into_iter().collect();
                let counts: Vec<u64> = want.iter().map(|p| m.get(p).copied().unwrap_or(0)).collect();
                json!({"k": "ok", "bad": bad, "rarest": counts.iter().min(), "counts": counts})
            }
        }
        // many mazes of one size, made in parallel by threads that are young: how many of them are different
        "maze_apart" => {
            let (w, h) = size(case);
            let (n, threads) = (u(&case["n"]) as u64, u(&case["threads"]) as u64);
            let pack = |g: &[MazeNode]| {
                let mut bits = vec![0u8; (2 * g.len() + 7) / 8];
                for (i, f) in walls(g, "right").iter().chain(&walls(g, "down")).enumerate() {
                    bits[i / 8] |= u8::from(*f) << (i % 8);
                }
                bits
            };
            let each = n / threads;
            let mut all: Vec<Vec<u8>> = Vec::new();
            while (all.len() as u64) < each * threads {
                let team: Vec<_> = (0..threads.min(8)).map(|_| std::thread::spawn(move || (0..each).map(|_| pack(&make(w, h).0)).collect::<Vec<_>>())).collect();
                for t in team {
                    match t.join() {
                        Ok(v) => all.extend(v),
                        Err(e) => std::panic::resume_unwind(e),
                    }
                }
            }
            let made = all.len();
            let different = all.into_iter().collect::<std::collections::HashSet<_>>().len();
            json!({"k": "ok", "made": made, "different": different})
        }
        "maze_support" => {
            let (w, h) = size(case);
            let mut seen = std::collections::BTreeMap::<String, (u64, Value)>::new();
            for _ in 0..u(&case["n"]) {
                let (g, s) = make(w, h);
                let o = maze_out(&g, &s);
                let key = o.to_string();
                seen.entry(key).or_insert((0, o)).0 += 1;
            }
            json!({"k": "ok", "seen": seen.values().map(|(n, o)| { let mut o = o.clone(); o["n"] = json!(n); o }).collect::<Vec<_>>()})
        }
        "print_maze" => {
            let (w, h) = size(case);
            let g = grid(&case["right"], &case["down"]);
            match print_maze(w as u32, h as u32, &g) {
                Ok(img) => shown(&img, case, None),
                Err(e) => maze_err(&e),
            }
        }
        "maze_overlay" => {
            let d = dirs(&case["sol"]);
            match print_maze_solution(base(case), &d) {
                Ok(img) => {
                    shown(&img, case, Some(base(case)))
                }
                Err(e) => maze_err(&e),
            }
        }
        "maze_picture" => maze_picture(case),
        "serde_node" => {
            let (r, d) = (u(&case["right"]) == 1, u(&case["down"]) == 1);
            let n = node(r, d);
            let t = serde_json::to_string(&n).expect("serialise");
            let v: Value = serde_json::from_str(&t).expect("valid json");
            let keys: Vec<String> = v.as_object().map_or(vec![], |m| m.keys().cloned().collect());
            let again: MazeNode = serde_json::from_str(&t).expect("a stored cell cannot be read back");
            let t2 = serde_json::to_string(&again).expect("serialise");
            json!({"k": "ok", "stored": stored(&n), "keys": keys, "right": walls(&[again.clone()], "right")[0], "down": walls(&[again], "down")[0], "same": t == t2})
        }
        "serde_dir" => {
            let d: MazeDirection = serde_json::from_value(case["d"].clone()).expect("a direction name is read");
            let t = serde_json::to_value(&d).expect("serialise");
            let again: MazeDirection = serde_json::from_value(t.clone()).expect("a stored direction cannot be read back");
            json!({"k": "ok", "stored": stored(&d), "name": t, "again": format!("{again:?}")})
        }
        "serde_maze" => {
            let (w, h) = size(case);
            let (g, s) = make(w, h);
            let gt = serde_json::to_string(&g).expect("serialise");
            let st = serde_json::to_string(&s).expect("serialise");
            let g2: Vec<MazeNode> = serde_json::from_str(&gt).expect("a stored maze cannot be read back");
            let s2: Vec<MazeDirection> = serde_json::from_str(&st).expect("a stored solution cannot be read back");
            let a = print_maze(w as u32, h as u32, &g).expect("print");
            let b = print_maze(w as u32, h as u32, &g2).expect("print");
            let same = paint::hash(&a) == paint::hash(&b);
            let sa = print_maze_solution(a, &s).map(|i| paint::hash(&i)).unwrap_or_else(|e| format!("{e:?}"));
            let sb = print_maze_solution(b, &s2).map(|i| paint::hash(&i)).unwrap_or_else(|e| format!("{e:?}"));
            let whole = stored(&g) == json!(vec![serde_json::to_value(&g).expect("serialise"); 8]);
            let way = stored(&s) == json!(vec![serde_json::to_value(&s).expect("serialise"); 8]);
            json!({"k": "ok", "before": maze_out(&g, &s), "after": maze_out(&g2, &s2), "samePic": same, "sameSol": sa == sb, "everyWay": whole && way})
        }
        "parse_sudoku" => sudoku_out(parse_sudoku(&text(&case["s"]))),
        "solve_sudoku" => {
            let p = bytes(&case["p"]);
            if case["fence"] == true {
                warm();
                let (out, ev, cut) = fence::armed(|| solve_sudoku(&p), |r| sudoku_out(r));
                heap(out, ev, cut, case["full"] == true)
            } else {
                sudoku_out(solve_sudoku(&p))
            }
        }
        "print_sudoku" => match print_sudoku(&bytes(&case["p"])) {
            Ok(img) => shown(&img, case, None),
            Err(e) => sudoku_err(&e),
        },
        "parse_rules" => {
            let bound = case["bound"].as_u64().expect("harness: bound") as usize;
            match parse_nonogram_rules(&text(&case["s"]), bound) {
                Ok(v) => json!({"k": "ok", "v": v.iter().map(|r| r.iter().map(|&n| digits(n)).collect::<Vec<_>>()).collect::<Vec<_>>()}),
                Err(e) => nono_err(&e),
            }
        }
        "solve_nonogram" => nono_out(solve_nonogram(&rules(&case["col"]), &rules(&case["row"]))),
        "print_nonogram" => {
            let (w, h) = size(case);
            match print_nonogram(w as u32, h as u32, &rules(&case["col"]), &rules(&case["row"])) {
                Ok(img) => shown(&img, case, None),
                Err(e) => nono_err(&e),
            }
        }
        "nono_overlay" => {
            let (w, h) = size(case);
            let g: Vec<bool> = bytes(&case["grid"]).iter().map(|&b| b == 1).collect();
            match print_nonogram_solution(w as u32, h as u32, base(case), &g) {
                Ok(img) => shown(&img, case, Some(base(case))),
                Err(e) => nono_err(&e),
            }
        }
        "nono_pipeline" => {
            let (cs, rs) = (text(&case["cs"]), text(&case["rs"]));
            let (w, h) = size(case);
            let col = parse_nonogram_rules(&cs, h);
            let row = parse_nonogram_rules(&rs, w);
            match (col, row) {
                (Ok(col), Ok(row)) => {
                    let solved = catch_unwind(AssertUnwindSafe(|| nono_out(solve_nonogram(&col, &row)))).unwrap_or(json!({"k": "panic"}));
                    let printed = catch_unwind(AssertUnwindSafe(|| match print_nonogram(col.len() as u32, row.len() as u32, &col, &row) {
                        Ok(img) => json!({"k": "ok", "w": img.width(), "h": img.height()}),
                        Err(e) => nono_err(&e),
                    }))
                    .unwrap_or(json!({"k": "panic"}));
                    json!({"k": "ok", "col": col, "row": row, "solve": solved, "print": printed})
                }
                (Err(e), _) => json!({"k": "rejected", "e": nono_err(&e)}),
                (_, Err(e)) => json!({"k": "rejected", "e": nono_err(&e)}),
            }
        }
        "png" => {
            let img = match case["raw"].as_array() {
                Some(_) => RgbImage::from_raw(u(&case["w"]), u(&case["h"]), bytes(&case["raw"])).expect("harness: raw"),
                None => base(case),
            };
            png_round_trip(&img)
        }
        "png_print" => {
            let img: RgbImage = match case["what"].as_str().expect("harness: what") {
                "maze" => {
                    let (w, h) = size(case);
                    let (g, s) = make(w, h);
                    print_maze_solution(print_maze(w as u32, h as u32, &g).expect("print"), &s).expect("overlay")
                }
                "sudoku" => print_sudoku(&bytes(&case["p"])).expect("print"),
                _ => {
                    let (c, r) = (rules(&case["col"]), rules(&case["row"]));
                    print_nonogram(c.len() as u32, r.len() as u32, &c, &r).expect("print")
                }
            };
            let mut o = png_round_trip(&img);
            o["ow"] = json!(img.width());
            o["oh"] = json!(img.height());
            if img.as_raw().len() <= FILE_MAX {
                o["oraw"] = json!(img.as_raw());
            }
            o
        }
        "iso" => iso(case),
        #[cfg(puzzle_verif)]
        "uf" => uf(case),
        #[cfg(puzzle_verif)]
        "uf_wide" => uf_wide(case),
        #[cfg(puzzle_verif)]
        "uf_blocks" => uf_blocks(case),
        #[cfg(puzzle_verif)]
        "dlx" => dlx(case),
        #[cfg(puzzle_verif)]
        "deduce" => match verif_hooks::verif_deduce(&bytes(&case["grid"]), &rules(&case["col"]), &rules(&case["row"])) {
            Ok(v) => json!({"k": "ok", "v": v}),
            Err(e) => nono_err(&e),
        },
        other => panic!("harness: unknown op {other}"),
    }
}

/// Lets the library set up whatever it keeps for the life of the process, so that a fenced call does not.
fn warm() {
    static ONCE: std::sync::Once = std::sync::Once::new();
    ONCE.call_once(|| {
        let mut clash = [0; 81];
        clash[..2].copy_from_slice(&[1, 1]);
        for p in [&[0; 81][..], &clash, &[0; 3]] {
            let _ = catch_unwind(|| solve_sudoku(p).is_ok());
        }
    });
}

fn heap(out: Value, ev: Vec<i64>, cut: bool, full: bool) -> Value {
    let allocs = ev.iter().filter(|&&e| e > 0).count();
    let frees = ev.iter().filter(|&&e| e < 0).count();
    let mut o = json!({"k": "ok", "res": out, "allocs": allocs, "frees": frees, "cut": cut});
    let mut live = std::collections::BTreeSet::new();
    let mut bad = 0;
    for &e in &ev {
        if e > 0 {
            live.insert(e);
        } else if !live.remove(&-e) {
            bad += 1;
        }
    }
    o["live"] = json!(live.len());
    o["bad"] = json!(bad);
    o["ev"] = if full && !cut { json!(ev) } else { json!([]) };
    o
}

fn maze_picture(case: &Value) -> Value {
    let (w, h) = size(case);
    let (g, s) = make(w, h);
    let mut o = maze_out(&g, &s);
    let a = match print_maze(w as u32, h as u32, &g) {
        Ok(i) => i,
        Err(e) => return json!({"k": "failed", "at": "print", "e": maze_err(&e)}),
    };
    let b = match print_maze_solution(a.clone(), &s) {
        Ok(i) => i,
        Err(e) => return json!({"k": "failed", "at": "overlay", "e": maze_err(&e)}),
    };
    o["w"] = json!(a.width());
    o["h"] = json!(a.height());
    o["same_size"] = json!(a.dimensions() == b.dimensions());
    // projection: the changed pixels with old and new colour, and the white pixels of the border
    let mut changed = vec![];
    for (x, y, p) in b.enumerate_pixels() {
        let q = a.get_pixel(x, y);
        if p != q {
            changed.push(json!([x, y, code(q), code(p)]));
        }
    }
    o["changed"] = json!(changed);
    let (lx, ly) = (a.width() - 1, a.height() - 1);
    let white = |x: u32, y: u32| code(a.get_pixel(x, y)) == 1;
    o["top"] = json!((0..=lx).filter(|&x| white(x, 0)).collect::<Vec<_>>());
    o["bottom"] = json!((0..=lx).filter(|&x| white(x, ly)).collect::<Vec<_>>());
    o["left"] = json!((0..=ly).filter(|&y| white(0, y)).collect::<Vec<_>>());
    o["rightb"] = json!((0..=ly).filter(|&y| white(lx, y)).collect::<Vec<_>>());
    o["other"] = json!(a.pixels().filter(|p| code(p) > 1).count());
    o["img"] = if case["img"] == true { pixels(&a) } else { json!([]) };
    o
}

/// Result of a call as text, pictures reduced to a hash, so that repetitions can be compared.
fn plain(case: &Value) -> String {
    let r = catch_unwind(AssertUnwindSafe(|| match case["op"].as_str().expect("harness: op") {
        "print_maze" => match print_maze(u(&case["w"]), u(&case["h"]), &grid(&case["right"], &case["down"])) {
            Ok(i) => json!(paint::hash(&i)),
            Err(e) => maze_err(&e),
        },
        "maze_overlay" => match print_maze_solution(base(case), &dirs(&case["sol"])) {
            Ok(i) => json!(paint::hash(&i)),
            Err(e) => maze_err(&e),
        },
        "print_sudoku" => match print_sudoku(&bytes(&case["p"])) {
            Ok(i) => json!(paint::hash(&i)),
            Err(e) => sudoku_err(&e),
        },
        "print_nonogram" => match print_nonogram(u(&case["w"]), u(&case["h"]), &rules(&case["col"]), &rules(&case["row"])) {
            Ok(i) => json!(paint::hash(&i)),
            Err(e) => nono_err(&e),
        },
        "nono_overlay" => {
            let g: Vec<bool> = bytes(&case["grid"]).iter().map(|&b| b == 1).collect();
            match print_nonogram_solution(u(&case["w"]), u(&case["h"]), base(case), &g) {
                Ok(i) => json!(paint::hash(&i)),
                Err(e) => nono_err(&e),
            }
        }
        _ => run(case),
    }));
    r.unwrap_or(json!({"k": "panic"})).to_string()
}

/// Independence of calls: every call once in order ("first"), then all calls repeatedly, each thread in an
/// order of its own. Reports the distinct results per call.
fn iso(case: &Value) -> Value {
    let calls: Vec<Value> = case["calls"].as_array().expect("harness: calls").clone();
    if case["mode"] == "alone" {
        // a call on its own: this process runs nothing before it but earlier "alone" cases of its file
        return json!({"k": "ok", "results": calls.iter().map(|c| vec![plain(c)]).collect::<Vec<_>>()});
    }
    let threads = u(&case["threads"]) as usize;
    let reps = u(&case["reps"]) as usize;
    let seed = case["seed"].as_u64().expect("harness: seed");
    // all threads make the same call at the same time, from the very first one of the process on
    let together = case["together"] == true;
    let calls = std::sync::Arc::new(calls);
    let barrier = std::sync::Arc::new(std::sync::Barrier::new(threads));
    let mut handles = vec![];
    for t in 0..threads {
        let calls = calls.clone();
        let barrier = barrier.clone();
        handles.push(
            std::thread::Builder::new()
                .stack_size(8 << 20)
                .spawn(move || {
                    let own = if together { 0 } else { t as u64 };
                    let mut s = (seed.wrapping_add(own + 1)).wrapping_mul(0x9E3779B97F4A7C15) | 1;
                    let mut rnd = move |n: usize| {
                        s ^= s << 13;
                        s ^= s >> 7;
                        s ^= s << 17;
                        (s % n as u64) as usize
                    };
                    let mut seen: Vec<std::collections::BTreeSet<String>> = vec![Default::default(); calls.len()];
                    let mut order: Vec<usize> = (0..calls.len()).collect();
                    barrier.wait();
                    for _ in 0..reps {
                        for i in (1..order.len()).rev() {
                            order.swap(i, rnd(i + 1));
                        }
                        for &i in &order {
                            let before = calls[i].to_string();
                            if together {
                                barrier.wait();
                            }
                            let r = plain(&calls[i]);
                            assert!(before == calls[i].to_string(), "harness: case changed");
                            seen[i].insert(r);
                        }
                    }
                    seen
                })
                .expect("harness: spawn"),
        );
    }
    let mut all: Vec<std::collections::BTreeSet<String>> = vec![Default::default(); calls.len()];
    for h in handles {
        for (i, s) in h.join().expect("harness: thread").into_iter().enumerate() {
            all[i].extend(s);
        }
    }
    let mazes: Vec<Value> = std::thread::scope(|sc| {
        let hs: Vec<_> = (0..threads)
            .map(|t| {
                sc.spawn(move || {
                    (0..u(&case["mazes"]))
                        .map(|i| {
                            let (w, h) = (1 + (t + i as usize) % 7, 1 + (i as usize * 3 + t) % 6);
                            match catch_unwind(|| make(w, h)) {
                                Ok((g, s)) => {
                                    let mut o = maze_out(&g, &s);
                                    o["w"] = json!(w);
                                    o["h"] = json!(h);
                                    o
                                }
                                Err(_) => json!({"k": "panic", "w": w, "h": h}),
                            }
                        })
                        .collect::<Vec<_>>()
                })
            })
            .collect();
        hs.into_iter().flat_map(|h| h.join().expect("harness: thread")).collect()
    });
    json!({"k": "ok", "results": all, "mazes": mazes})
}

#[cfg(puzzle_verif)]
fn uf(case: &Value) -> Value {
    use verif_hooks::DisjointSet;
    let opt = |o: Option<usize>| o.map_or(json!(-1), num);
    let mut set: Option<DisjointSet> = None;
    let mut outs = vec![];
    for op in case["ops"].as_array().expect("harness: ops") {
        let a = op["a"].as_array().expect("harness: args");
        let arg = |i: usize| u(&a[i]) as usize;
        let r = catch_unwind(AssertUnwindSafe(|| match op["f"].as_str().expect("harness: f") {
            "new" => {
                set = Some(DisjointSet::new());
                json!(0)
            }
            "with_size" => {
                set = Some(DisjointSet::with_size(arg(0)));
                json!(0)
            }
            "add" => {
                set.as_mut().expect("harness: set").add();
                json!(0)
            }
            "find" => opt(set.as_mut().expect("harness: set").find(arg(0))),
            "union" => opt(set.as_mut().expect("harness: set").union(arg(0), arg(1)).map(|_| 1)),
            "common" => opt(set.as_mut().expect("harness: set").common_set(arg(0), arg(1)).map(|b| b as usize)),
            other => panic!("harness: {other}"),
        }));
        match r {
            Ok(v) => outs.push(v),
            Err(_) => {
                outs.push(json!(-9));
                break;
            }
        }
    }
    json!({"k": "ok", "r": outs})
}

/// Whole progressions of unions on a large structure, then queries.
#[cfg(puzzle_verif)]
fn uf_wide(case: &Value) -> Value {
    let opt = |o: Option<usize>| o.map_or(json!(-1), num);
    let mut set = verif_hooks::DisjointSet::with_size(u(&case["n"]) as usize);
    for c in case["chains"].as_array().expect("harness: chains") {
        let (lo, hi, step) = (u(&c["lo"]) as usize, u(&c["hi"]) as usize, u(&c["step"]) as usize);
        let k = (hi - lo) / step;
        for j in 0..k {
            let j = if c["down"] == true { k - 1 - j } else { j };
            let (a, b) = (lo + j * step, lo + j * step + step);
            let (a, b) = if c["flip"] == true { (b, a) } else { (a, b) };
            if set.union(a, b).is_none() {
                return json!({"k": "missing", "a": num(a), "b": num(b)});
            }
        }
    }
    let q = |f: &str| case[f].as_array().expect("harness: queries").clone();
    let common: Vec<Value> = q("common").iter().map(|p| opt(set.common_set(u(&p[0]) as usize, u(&p[1]) as usize).map(|b| b as usize))).collect();
    let find: Vec<Value> = q("find").iter().map(|x| opt(set.find(u(x) as usize))).collect();
    json!({"k": "ok", "common": common, "find": find})
}

/// Joins neighbouring blocks of equal size, level by level, by their representatives.
#[cfg(puzzle_verif)]
fn uf_blocks(case: &Value) -> Value {
    let opt = |o: Option<usize>| o.map_or(json!(-1), num);
    let n = u(&case["n"]) as usize;
    let mut set = verif_hooks::DisjointSet::with_size(n);
    let mut roots: Vec<usize> = (0..n).collect();
    for _ in 0..u(&case["levels"]) {
        let mut next = Vec::new();
        for p in roots.chunks_exact(2) {
            let (a, b) = if case["flip"] == true { (p[1], p[0]) } else { (p[0], p[1]) };
            if set.union(a, b).is_none() {
                return json!({"k": "missing", "a": num(a), "b": num(b)});
            }
            match set.find(a) {
                Some(r) => next.push(r),
                None => return json!({"k": "missing", "a": num(a), "b": num(a)}),
            }
        }
        roots = next;
    }
    let q = |f: &str| case[f].as_array().expect("harness: queries").clone();
    let common: Vec<Value> = q("common").iter().map(|p| opt(set.common_set(u(&p[0]) as usize, u(&p[1]) as usize).map(|b| b as usize))).collect();
    let find: Vec<Value> = q("find").iter().map(|x| opt(set.find(u(x) as usize))).collect();
    json!({"k": "ok", "common": common, "find": find})
}

#[cfg(puzzle_verif)]
fn dlx(case: &Value) -> Value {
    use verif_hooks::{DancingLinksError, DancingMatrix};
    let cons = rules(&case["cons"]);
    let force: Vec<usize> = case["force"].as_array().expect("harness: force").iter().map(|x| u(x) as usize).collect();
    let solve = case["solve"] == true;
    #[allow(unreachable_patterns)]
    let err = |e: DancingLinksError| match e {
        DancingLinksError::IndexError => "IndexError",
        DancingLinksError::InvalidRow => "InvalidRow",
        DancingLinksError::NoSolution => "NoSolution",
        _ => "Other",
    };
    let mut forced: Vec<&'static str> = Vec::with_capacity(force.len());
    static ONCE: std::sync::Once = std::sync::Once::new();
    ONCE.call_once(|| {
        let _ = catch_unwind(|| DancingMatrix::new([vec![0, 1], vec![1]].iter().map(|c: &Vec<usize>| c.iter())).solve().is_ok());
    });
    let (sol, ev, cut) = fence::armed(
        || {
            let mut m = DancingMatrix::new(cons.iter().map(|c| c.iter()));
            for &r in &force {
                forced.push(match m.add_solution(r) {
                    Ok(_) => "Ok",
                    Err(e) => err(e),
                });
            }
            if solve {
                Some(m.solve())
            } else {
                None
            }
        },
        |r| match r {
            None => json!({"k": "dropped"}),
            Some(Ok(v)) => json!({"k": "ok", "v": v.iter().map(|&n| num(n)).collect::<Vec<_>>()}),
            Some(Err(e)) => json!({"k": "err", "e": err(e)}),
        },
    );
    let mut o = heap(sol, ev, cut, case["full"] == true);
    let m: &mut Map<String, Value> = o.as_object_mut().expect("object");
    m.insert("forced".into(), json!(forced));
    o
}
