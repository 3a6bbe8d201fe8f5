use crate::util::*;
use crate::*;
use granne::embeddings::{parsing, SumEmbeddings};
use granne::{angular, angular_int, BuildConfig, GranneBuilder, RwGranneBuilder, Writeable};
use std::io::Write;
use std::path::Path;

pub fn sections(p: &str, v: &mut Vec<Section>) {
    match p {
        "C26" => {
            v.push(sec("parse", "random word and element files (escapes, unknown words, colons, odd whitespace, gzip, directories) against a model", 200, 10000, parse));
            v.push(sec("parse-large", "70000 words, lines of up to 20000 words, 300 files", 2, 12, parse_large));
            v.push(sec("convert-large", "70000 elements; dimension 1000", 2, 8, convert_large));
            v.push(sec("convert", "embeddings computed for 0..1000 stored elements, in a pool of 1..4 threads", 120, 5000, convert));
        }
        "C20" => v.push(sec("disk-full", "files written by name on a device that is full", 20, 400, disk_full)),
        _ => {}
    }
}
fn json(c: &mut Ctx, s: &str) -> String {
    let mut o = String::from("\"");
    for ch in s.chars() {
        let mut b = [0u16; 2];
        match ch {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\t' => o.push_str("\\t"),
            ch if (ch as u32) < 32 || c.rng.chance(1, 20) => for u in ch.encode_utf16(&mut b) { o.push_str(&format!("\\u{:04x}", u)); },
            ch => o.push(ch),
        }
    }
    o.push('"');
    o
}
/// gz: the number of members of the gzip file, 0 for plain text
fn write_text(p: &Path, text: &str, gz: usize) {
    if gz > 0 {
        let mut f = std::fs::File::create(p).unwrap();
        let t = text.as_bytes();
        for i in 0..gz {
            let mut e = flate2::write::GzEncoder::new(f, flate2::Compression::fast());
            e.write_all(&t[i * t.len() / gz..(i + 1) * t.len() / gz]).unwrap();
            f = e.finish().unwrap();
        }
    } else { std::fs::write(p, text).unwrap(); }
}
fn parse(c: &mut Ctx, idx: u64) -> R {
    const ALPHA: [&str; 16] = ["a", "b", "c", "0", "9", "-", "_", "å", "日", "🦀", "\"", "\\", "/", ".", "'", "<"];
    let nw = c.rng.range(1, 30);
    let mut words: Vec<String> = vec![];
    while words.len() < nw {
        let w: String = (0..c.rng.range(1, 4)).map(|_| *c.rng.pick(&ALPHA)).collect();
        if !words.contains(&w) || c.rng.chance(1, 8) { words.push(w); }
    }
    // of equal lines the last one counts
    let numbers: std::collections::HashMap<String, usize> = words.iter().cloned().enumerate().map(|(i, w)| (w, i)).collect();
    let d = Dir::new("tx");
    let eol = *c.rng.pick(&["\n", "\r\n", " \n"]);
    let mut wl = String::new();
    for w in &words { wl += &json(c, w); wl += eol; }
    std::fs::write(d.file("words"), &wl).unwrap();
    let parts = if idx % 3 == 0 { 1 } else { c.rng.range(1, 5) };
    let dir = parts > 1 || c.rng.chance(1, 3);
    if dir { std::fs::create_dir(d.file("in")).unwrap(); }
    let mut model: Vec<Vec<usize>> = vec![];
    let mut log = format!("words {:?}; ", words);
    let mut names: Vec<String> = vec![];
    while names.len() < parts { let n = format!("{}{}{}", c.rng.pick(&["part", "a", "B", "z"]), c.rng.below(30), *c.rng.pick(&["", "", "", ".gz", ".gz", ".gz", ".GZ", ".gz.txt", "gz", ".gzip"])); let n = if c.rng.chance(1, 20) { c.rng.pick(&[".gz", ".hidden", "gz", "x y.gz"]).to_string() } else { n }; if !names.contains(&n) { names.push(n); } }
    if !dir { names[0] = format!("single{}", if c.rng.chance(1, 2) { ".gz" } else { "" }); }
    let mut sorted = names.clone();
    sorted.sort();
    let mut texts = std::collections::HashMap::new();
    for n in &sorted {
        let mut text = String::new();
        let lines = match c.rng.below(5) { 0 => 0, 1 => 1, _ => c.rng.below(25) };
        for l in 0..lines {
            let mut s = String::new();
            for _ in 0..match c.rng.below(4) { 0 => 1, 1 => c.rng.range(0, 3), _ => 0 } { s += c.rng.pick(&["id", "12", "", "x y", "a b c"]); s += ":"; }
            let mut ids = vec![];
            if c.rng.chance(1, 4) { s += " "; }
            for k in 0..match c.rng.below(6) { 0 => 0, 1 => c.rng.range(20, 60), _ => c.rng.below(7) } {
                if k > 0 { s += *c.rng.pick(&[" ", " ", "  ", "\t", "\u{3000}", " \u{a0}"]); }
                if c.rng.chance(1, 5) { s += &format!("unknown{}", k); } else { let i = c.rng.below(words.len()); s += &words[i]; ids.push(numbers[&words[i]]); }
            }
            if c.rng.chance(1, 4) { s += " "; }
            log += &format!("{} {:?}; ", n, s);
            text += &json(c, &s);
            if l + 1 < lines || c.rng.chance(4, 5) { text += eol; }
            model.push(ids);
        }
        texts.insert(n.clone(), text);
    }
    for n in &names { write_text(&if dir { d.file("in").join(n) } else { d.file(n) }, &texts[n], if !n.ends_with(".gz") { 0 } else if c.rng.chance(1, 2) { 1 } else { c.rng.range(2, 4) }); }
    let input = if dir { d.file("in") } else { d.file(&names[0]) };
    c.case(clip(&log, 5000));
    let threads = c.rng.range(1, 4);
    let m = on_threads(threads, || parsing::parse_elements_and_save_to_disk(&input, &d.file("words"), &d.file("out"), false));
    ensure(m == model.len(), || format!("{} elements reported for {} lines", m, model.len()))?;
    std::fs::write(d.file("w"), 1u64.to_le_bytes()).unwrap();
    let (w, f) = (std::fs::File::open(d.file("w")).unwrap(), std::fs::File::open(d.file("out")).unwrap());
    let e = unsafe { SumEmbeddings::from_files(&w, Some(&f)) }.map_err(|e| e.to_string())?;
    ensure(e.len() == model.len(), || format!("{} elements saved for {} lines", e.len(), model.len()))?;
    for i in 0..model.len() { ensure(e.get_terms(i) == model[i], || format!("element {} is {:?} instead of {:?}", i, e.get_terms(i), model[i]))?; }
    let ids = parsing::parse_words(&d.file("words"));
    ensure(ids == numbers, || format!("word numbers {:?} instead of {:?}", ids, numbers))?;
    Ok(())
}
fn parse_large(c: &mut Ctx, idx: u64) -> R {
    let d = Dir::new("pl");
    let nw = 70000;
    let mut wl = String::new();
    for i in 0..nw { wl += &format!("\"w{}\"\n", i); }
    std::fs::write(d.file("words"), &wl).unwrap();
    std::fs::create_dir(d.file("in")).unwrap();
    let files = if idx % 2 == 0 { 3 } else { 300 };
    let longest = if idx % 2 == 0 { 20000 } else { 40 };
    c.case(format!("{} files, lines of up to {} words", files, longest));
    let mut model: Vec<Vec<usize>> = vec![];
    for f in 0..files {
        let mut text = String::new();
        for l in 0..5 {
            let k = if l == 0 { longest } else { c.rng.below(longest) };
            let ids: Vec<usize> = (0..k).map(|_| c.rng.below(nw)).collect();
            text += "\"q:";
            for i in &ids { text += &format!(" w{}", i); }
            text += "\"\n";
            model.push(ids);
        }
        write_text(&d.file("in").join(format!("f{:04}{}", f, if f % 3 == 1 { ".gz" } else { "" })), &text, if f % 3 == 1 { 1 } else { 0 });
    }
    let threads = c.rng.range(1, 4);
    let m = on_threads(threads, || parsing::parse_elements_and_save_to_disk(&d.file("in"), &d.file("words"), &d.file("out"), false));
    ensure(m == model.len(), || format!("{} elements reported for {} lines", m, model.len()))?;
    std::fs::write(d.file("w"), 1u64.to_le_bytes()).unwrap();
    let (w, f) = (std::fs::File::open(d.file("w")).unwrap(), std::fs::File::open(d.file("out")).unwrap());
    let e = unsafe { SumEmbeddings::from_files(&w, Some(&f)) }.map_err(|e| e.to_string())?;
    ensure(e.len() == model.len(), || format!("{} elements saved for {} lines", e.len(), model.len()))?;
    for i in 0..model.len() { ensure(e.get_terms(i) == model[i], || format!("element {} of {} terms differs", i, model[i].len()))?; }
    Ok(())
}
fn convert(c: &mut Ctx, idx: u64) -> R {
    let dim = c.rng.range(1, 20);
    let n = match idx % 4 { 0 => c.rng.below(5), 1 => *c.rng.pick(&[98usize, 99, 100, 101, 102, 149, 150, 151, 198, 199, 200, 201, 202, 299, 300, 301, 990, 999, 1000]), 2 => c.rng.below(120), _ => c.rng.below(400) };
    convert_case(c, n, dim)
}
fn convert_large(c: &mut Ctx, idx: u64) -> R {
    if idx % 2 == 0 { convert_case(c, 66000 + idx as usize, 3) } else { convert_case(c, 230, 1000) }
}
fn convert_case(c: &mut Ctx, n: usize, dim: usize) -> R {
    let d = Dir::new("cv");
    let m = c.rng.range(1, 20);
    let mut e = SumEmbeddings::new();
    for _ in 0..m { let x: Vec<f32> = (0..dim).map(|_| c.rng.unit() * 2.0 - 1.0).collect(); e.push_embedding(&x); }
    for _ in 0..n { let ids: Vec<usize> = (0..c.rng.below(5)).map(|_| c.rng.below(m)).collect(); e.push(&ids); }
    c.case(format!("{} elements, {} embeddings of dimension {}", n, m, dim));
    let (mut eb, mut wb) = (vec![], vec![]);
    e.write(&mut eb).unwrap();
    e.write_embeddings(&mut wb).unwrap();
    std::fs::write(d.file("elements"), &eb).unwrap();
    std::fs::write(d.file("embeddings"), &wb).unwrap();
    let threads = c.rng.range(1, 4);
    on_threads(threads, || parsing::compute_embeddings_and_save_to_disk(&d.file("elements"), &d.file("embeddings"), &d.file("out"), false));
    let out = std::fs::read(d.file("out")).unwrap();
    ensure(out.len() == 8 + n * dim, || format!("{} bytes written", out.len()))?;
    if n == 0 { return Ok(()); }
    ensure(out[..8] == (dim as u64).to_le_bytes(), || "width".into())?;
    for i in 0..n {
        let v: angular_int::Vector = e.get_embedding(i).into();
        let got: Vec<i8> = out[8 + i * dim..8 + (i + 1) * dim].iter().map(|&b| b as i8).collect();
        ensure(v.as_slice() == &got[..], || format!("vector {} is {:?} instead of {:?}", i, got, v.as_slice()))?;
    }
    let l = angular_int::Vectors::from_bytes(&out);
    ensure(l.len() == n, || format!("{} vectors loaded", l.len()))
}
fn disk_full(c: &mut Ctx, idx: u64) -> R {
    let full = "/dev/full";
    if std::fs::OpenOptions::new().write(true).open(full).map(|mut f| f.write(&[1]).is_ok()).unwrap_or(true) { c.nontrivial = false; return Ok(()); }
    let d = Dir::new("df");
    let n = *c.rng.pick(&[0usize, 1, 5, 60, 3000]);
    std::fs::write(d.file("words"), "\"a\"\n\"b\"\n").unwrap();
    std::fs::write(d.file("in"), "\"a b a b\"\n".repeat(n)).unwrap();
    c.case(format!("{} elements, function {}", n, idx % 4));
    let r = match idx % 4 {
        0 => catch(|| { parsing::parse_elements_and_save_to_disk(&d.file("in"), &d.file("words"), Path::new(full), false); }),
        1 => {
            std::fs::create_dir(d.file("out")).unwrap();
            let num = c.rng.range(1, 4);
            let k = c.rng.below(num);
            std::os::unix::fs::symlink(full, d.file("out").join(format!("elements-{}.bin", k))).unwrap();
            catch(|| { parsing::parse_elements_and_save_shards_to_disk(&d.file("in"), &d.file("words"), &d.file("out"), num, false); })
        }
        2 => {
            let mut e = SumEmbeddings::new();
            e.push_embedding(&[1.0, 0.5]);
            for _ in 0..n { e.push(&[0usize]); }
            let (mut eb, mut wb) = (vec![], vec![]);
            e.write(&mut eb).unwrap();
            e.write_embeddings(&mut wb).unwrap();
            std::fs::write(d.file("elements"), &eb).unwrap();
            std::fs::write(d.file("embeddings"), &wb).unwrap();
            catch(|| parsing::compute_embeddings_and_save_to_disk(&d.file("elements"), &d.file("embeddings"), Path::new(full), false))
        }
        _ => {
            let b = RwGranneBuilder::new(GranneBuilder::new(BuildConfig::default().num_neighbors(4).max_search(4), angular::Vectors::new()), 100, 1);
            for i in 0..n.min(60) { b.insert(vec![1.0, i as f32].into()); }
            let (ip, ep) = (d.file("index"), d.file("elements"));
            let which = c.rng.below(2);
            catch(|| b.save_index_and_elements_to_disk(if which == 0 { full } else { ip.to_str().unwrap() }, if which == 1 { full } else { ep.to_str().unwrap() }).map_err(|e| e.to_string())).and_then(|r| r)
        }
    };
    ensure(r.is_err(), || "success reported although the device is full".into())
}
