//! Loading damaged documents (C15).

use std::path::PathBuf;

use node_tree::prelude::*;
use toml_edit::{ self as toml, DocumentMut, Item, Table, Value };

use crate::ctx::{ Ctx, Meta, Res };
use crate::lab::Lab;
use super::{ b, Prop };
use super::scenes::{ burn, look, observe, observe_tree, ptr_of, same, Ob, Sp };

/*
 * Judgement
 */

fn get<T: Exportable>(t: &Table, k: &str) -> Option<T> { match t.get(k)? { Item::Value(v) => T::from_value(v.clone()), _ => None } }

/// What a node of that description holds, in the form used by `look`; none if the description is not one of a node of that type.
fn described(ty: &str, t: &Table) -> Option<String> {
    let short: &str = ty.strip_prefix("mc::props::scenes::").unwrap_or(ty);
    Some(match short {
        "east::Twin" | "west::Twin" => format!("{}", get::<i64>(t, "v")?),
        "Plain" => String::new(),
        "All"   => format!("{:?} {:?}", get::<String>(t, "exp")?, get::<Vec<i64>>(t, "expd")?),
        "Rich"  => format!("{} {:?} {:?} {:?} {:?} {:?} {} {:?} {:?}", get::<i64>(t, "int")?, get::<f64>(t, "num")?, get::<String>(t, "text")?, get::<Vec<String>>(t, "list")?, get::<Option<i32>>(t, "some")?,
            get::<std::collections::BTreeMap<String, i32>>(t, "map")?, get::<bool>(t, "flag")?, get::<char>(t, "ch")?, get::<Vec<Vec<(i32, String)>>>(t, "deep")?),
        "Odd"   => format!("{} {:?} {} {:?} {} {}", get::<i64>(t, "parent")?, get::<String>(t, "type_name")?, get::<bool>(t, "is_owner")?, get::<Vec<i64>>(t, "children")?, get::<i64>(t, "r#type")?, get::<i64>(t, "_x_1")?),
        "Meta1" => format!("{}", get::<i64>(t, "metadata")?),
        _ => return None
    })
}

struct Entry { name: String, id: Option<i128>, ty: String, owner: Option<bool>, parent: Option<i128>, fields: Option<String>, used: bool }

fn entries(text: &str) -> Result<Vec<Entry>, String> {
    let d: DocumentMut = text.parse().map_err(|e| format!("a scene is loaded from what is not TOML ({e})"))?;
    let mut out: Vec<Entry> = Vec::new();
    for (k, v) in d.iter() {
        let Some(t) = v.as_table() else { continue };
        let m = t.get("metadata").and_then(|m| m.as_table_like());
        let ty: String = m.and_then(|m| m.get("type_name")).and_then(|x| x.as_str()).unwrap_or("").to_string();
        let (name, id): (&str, &str) = k.rsplit_once('_').unwrap_or((k, ""));
        out.push(Entry {
            name: name.into(), id: id.parse().ok(), fields: described(&ty, t), ty,
            owner: m.and_then(|m| m.get("is_owner")).and_then(|x| x.as_bool()), parent: m.and_then(|m| m.get("parent")).and_then(|x| x.as_integer()).map(|i| i as i128), used: false
        });
    }
    Ok(out)
}

/// Every node of the scene is one that the document describes, below the node it names as its parent.
fn only_described(s: &NodeScene, es: &mut [Entry], above: Option<(usize, bool)>) -> Result<(), String> {
    let o: Ob = look(unsafe { &*ptr_of(s) });
    let at: Option<usize> = es.iter().position(|e| !e.used && e.name == o.name && e.ty == o.ty && e.owner == Some(s.is_owner) && e.fields.as_deref() == Some(&o.exported) && match above {
        None            => true,
        Some((p, root)) => e.parent.is_some() && (e.parent == es[p].id || (root && e.parent == Some(0)))
    });
    let Some(at) = at else { return Err(format!("the scene has a node {:?} of type {} with {} (owner: {}) that the document does not describe there", o.name, o.ty, o.exported, s.is_owner)) };
    es[at].used = true;
    for c in s.children() { only_described(c, es, Some((at, above.is_none())))?; }
    Ok(())
}

fn bare(mut o: Ob) -> Ob { o.owner = true; o.each_mut(&mut |x| { x.name.clear(); x.rest.clear(); }); o }

/// Judges what becomes of one text.
fn judge(ctx: &mut Ctx, text: &str, heavy: bool) -> Result<bool, String> {
    ctx.st.executions += 1; ctx.st.transitions += 1;
    let got: Result<NodeScene, String> = NodeScene::load_from_str(text);
    let scene: NodeScene = match got { Ok(s) => s, Err(_) => return Ok(false) };
    let mut es: Vec<Entry> = entries(text)?;
    only_described(&scene, &mut es, None)?;
    if heavy {
        let seen: Ob = observe(&scene);
        let again: NodeScene = NodeScene::load_from_str(&scene.save_to_str().map_err(|e| format!("the loaded scene cannot be saved: {e}"))?).map_err(|e| format!("what the loaded scene saves cannot be loaded: {e}"))?;
        same("the scene saved and loaded again", &observe(&again), &seen)?;
        let mut lab: Lab = Lab::new(again);
        same("the scene in a tree", &bare(observe_tree(lab.tree(), 0)), &bare(seen))?;
        lab.tree().process();
        ctx.st.transitions += 3;
        drop(lab);
    }
    burn(scene);
    Ok(true)
}

fn one(ctx: &mut Ctx, text: String, heavy: bool) -> Res {
    let loaded: bool = judge(ctx, &text, heavy).map_err(|e| format!("{e}\nfrom the document\n{text}"))?;
    ctx.state_str(&text);
    ctx.outcome(if loaded { "scene" } else { "refused" });
    Ok(())
}

/*
 * Documents
 */

fn plain(sp: &Sp) -> String { let s: NodeScene = sp.scene(); let t: String = s.save_to_str().expect("save"); burn(s); t }

/// Entries in a fixed order, since fields are saved in any.
fn ordered(doc: &str) -> String {
    let mut d: DocumentMut = doc.parse().expect("doc");
    for (_, v) in d.iter_mut() { if let Some(t) = v.as_table_mut() { t.sort_values_by(|a, _, b, _| a.get().cmp(b.get())); } }
    format!("# comment\n\n{d}")
}

fn documents() -> Vec<(&'static str, String)> {
    let two:   Sp = Sp::leaf(0, 1).owned(true).with(vec![Sp::leaf(0, 2)]);
    let four:  Sp = Sp::leaf(0, 1).owned(true).with(vec![Sp::leaf(1, 2).owned(true).with(vec![Sp::leaf(2, 3)]), Sp::leaf(2, 4)]);
    let all:   Sp = Sp::leaf(3, 5).with(vec![Sp::leaf(3, 6).owned(true)]);
    let names: Sp = Sp::leaf(2, 0).named("é \"_1").with(vec![Sp::leaf(2, 0).named("a.b"), Sp::leaf(2, 0).named("a.b").with(vec![Sp::leaf(2, 0).named("")])]);
    let rich:  Sp = Sp::leaf(4, 5).with(vec![Sp::leaf(5, 3)]);
    vec![("two", ordered(&plain(&two))), ("four", ordered(&plain(&four))), ("all", ordered(&plain(&all))), ("names", ordered(&plain(&names))), ("rich", ordered(&plain(&rich)))]
}

fn values() -> Vec<Value> {
    let p = |s: &str| -> Value { s.parse().expect("value") };
    ["0", "1", "2", "3", "-1", "9223372036854775807", "-9223372036854775808", "0.0", "1.5", "inf", "nan", "true", "false", "\"\"", "\"a\"", "\"é\"", "\"Plain\"", "\"mc::props::scenes::Plain\"", "\"mc::props::scenes::All\"", "\"1\"",
     "1979-05-27T07:32:00Z", "07:32:00", "[]", "[1]", "[\"a\"]", "[[]]", "[[[1, \"a\"]]]", "[1, \"a\"]", "{}", "{ a = 1 }", "{ value = 1 }", "{ type_name = \"mc::props::scenes::Plain\", is_owner = true }", "{ type_name = \"mc::props::scenes::Plain\", is_owner = true, parent = 0 }",
     "{ secs = 1, nanos = 1 }", "[true]", "[1.5]", "[{}]"].iter().map(|s| p(s)).collect()
}

/// Places of values in a document: table and key, and key inside of metadata.
fn places(doc: &str) -> Vec<(String, String, Option<String>)> {
    let d: DocumentMut = doc.parse().expect("doc");
    let mut out: Vec<(String, String, Option<String>)> = Vec::new();
    for (k, v) in d.iter() { for (f, v) in v.as_table().unwrap().iter() {
        out.push((k.into(), f.into(), None));
        if let Some(m) = v.as_inline_table() && f == "metadata" { for (x, _) in m.iter() { out.push((k.into(), f.into(), Some(x.into()))); } }
    } }
    out
}

fn put(doc: &str, at: &(String, String, Option<String>), v: Option<&Value>) -> String {
    let mut d: DocumentMut = doc.parse().expect("doc");
    let Some(t) = d.get_mut(&at.0).and_then(|t| t.as_table_mut()) else { return d.to_string() };
    match (&at.2, v) {
        (None, Some(v))    => { t[&at.1] = Item::Value(v.clone()); },
        (None, None)       => { t.remove(&at.1); },
        (Some(x), Some(v)) => { if let Some(m) = t.get_mut(&at.1).and_then(|m| m.as_inline_table_mut()) { m.insert(x, v.clone()); } },
        (Some(x), None)    => { if let Some(m) = t.get_mut(&at.1).and_then(|m| m.as_inline_table_mut()) { m.remove(x); } }
    }
    d.to_string()
}

/// The document with its tables in that order, under those headings.
fn arranged(doc: &str, order: &[(usize, String)]) -> String {
    let d: DocumentMut = doc.parse().expect("doc");
    let tables: Vec<&Table> = d.iter().map(|(_, v)| v.as_table().unwrap()).collect();
    let mut out: String = String::new();
    for (i, head) in order {
        out += &format!("[{}]\n", toml::Key::new(head.as_str()));
        let mut t: Table = tables[*i].clone(); t.set_position(0); t.decor_mut().clear();
        let mut e: DocumentMut = DocumentMut::new();
        for (k, v) in t.iter() { e[k] = v.clone(); }
        out += &e.to_string();
    }
    out
}

fn heads(doc: &str) -> Vec<String> { let d: DocumentMut = doc.parse().expect("doc"); d.iter().map(|(k, _)| k.to_string()).collect() }

const BYTES: &str = "aZ019_- \t\n\r.,=#\"'\\[]{}:+eExtfuni/\0\u{7f}é\u{feff}😀";

pub const C15: Prop = Prop {
    meta: Meta {
        id: "C15",
        rule: "every damaged document within the bounds is loaded by the real code with guarded memory; where a scene comes back it must hold only nodes that an independent reading of the document finds there, below the parents named, with the values given; it must survive saving and loading, and enter a tree and process a frame there",
        bounds: |t| b(t, "five saved documents covering all kinds of fields: every truncation, every deletion, replacement and insertion of one character (39 replacements), every line and range of lines lost, every line doubled, moved or swapped, every order and choice of up to 4 tables, every value replaced by 37 others, removed or copied, every pair of values of the smallest replaced, every splice of two documents at line ends; all texts up to 4 characters out of 18 and all sequences of up to 5 out of 14 pieces of documents; files cut or spoilt at every byte; nesting up to 200000 brackets",
                         "the same with pairs of characters and of values of all documents, splices at every character, texts up to 5 characters and sequences of up to 6 pieces"),
        assumptions: &["toml_edit, which reads the text, is the one the repository uses", "what an entry of a field means is decided by the field type's own reading (C14)"]
    },
    body: |ctx| {
        let docs: Vec<(&str, String)> = documents();
        ctx.family("intact");
        for (n, d) in &docs { ctx.case(|| format!("intact {n}"), |ctx| if judge(ctx, d, true)? { Ok(()) } else { Err(format!("an intact document is refused: {:?}\n{d}", NodeScene::load_from_str(d).err()).into()) }); }

        ctx.family("truncations");
        for (n, d) in &docs { for i in (0..=d.len()).filter(|&i| d.is_char_boundary(i)) {
            ctx.case(|| format!("{n} cut at {i}"), |ctx| one(ctx, d[..i].to_string(), true));
            ctx.case(|| format!("{n} from {i}"), |ctx| one(ctx, d[i..].to_string(), true));
        } }

        ctx.family("characters");
        for (n, d) in &docs {
            for (i, c) in d.char_indices() {
                let (pre, post): (&str, &str) = (&d[..i], &d[i + c.len_utf8()..]);
                ctx.case(|| format!("{n} without the character at {i}"), |ctx| one(ctx, format!("{pre}{post}"), true));
                for x in BYTES.chars() {
                    if x != c { ctx.case(|| format!("{n} with {x:?} at {i}"), |ctx| one(ctx, format!("{pre}{x}{post}"), true)); }
                    ctx.case(|| format!("{n} with {x:?} put in at {i}"), |ctx| one(ctx, format!("{pre}{x}{}", &d[i..]), true));
                }
                if ctx.done() { return; }
            }
        }
        if !ctx.quick() {
            for (n, d) in docs.iter().take(2) {
                let at: Vec<(usize, char)> = d.char_indices().collect();
                for (a, (i, c)) in at.iter().enumerate() { for (j, e) in &at[a + 1..] { for (x, y) in [("", ""), ("1", "0"), ("_", "1"), ("\"", "\""), ("\n", "\n"), ("", "0"), ("[", "]"), ("-", "9")] {
                    ctx.case(|| format!("{n} with {x:?} at {i} and {y:?} at {j}"), |ctx| one(ctx, format!("{}{x}{}{y}{}", &d[..*i], &d[i + c.len_utf8()..*j], &d[j + e.len_utf8()..]), true));
                } } if ctx.done() { return; } }
            }
        }

        ctx.family("lines");
        for (n, d) in &docs {
            let l: Vec<&str> = d.split_inclusive('\n').collect();
            let k: usize = l.len();
            for i in 0..k {
                for j in i + 1..=k {
                    ctx.case(|| format!("{n} without lines {i}..{j}"), |ctx| one(ctx, format!("{}{}", l[..i].concat(), l[j..].concat()), true));
                    ctx.case(|| format!("{n} with lines {i}..{j} twice"), |ctx| one(ctx, format!("{}{}", l[..j].concat(), l[i..].concat()), true));
                    ctx.case(|| format!("{n} with lines {i}..{j} again at the end"), |ctx| one(ctx, format!("{d}{}", l[i..j].concat()), true));
                    for to in 0..=k { if to < i || to > j {
                        let mut r: Vec<&str> = l.clone();
                        let moved: Vec<&str> = r.drain(i..j).collect();
                        let to: usize = if to > j { to - (j - i) } else { to };
                        r.splice(to..to, moved);
                        ctx.case(|| format!("{n} with lines {i}..{j} moved to {to}"), |ctx| one(ctx, r.concat(), true));
                    } }
                }
                for j in i + 1..k { let mut r: Vec<&str> = l.clone(); r.swap(i, j); ctx.case(|| format!("{n} with lines {i} and {j} swapped"), |ctx| one(ctx, r.concat(), true)); }
            }
            if ctx.done() { return; }
        }

        ctx.family("tables");
        for (n, d) in &docs {
            let h: Vec<String> = heads(d);
            let mut names: Vec<String> = h.clone();
            names.extend(["Twin_7", "Twin_00", "Twin_+1", "Twin_-1", "Twin_", "Twin", "_1", "a_b_1", "a_18446744073709551615", "a_18446744073709551616", "a_4294967296", "", "_", "x_ 1"].map(String::from));
            // Every order and choice of tables, with repeats under another heading.
            let mut seqs: Vec<Vec<usize>> = vec![vec![]];
            for _ in 0..4 { let next: Vec<Vec<usize>> = seqs.iter().flat_map(|s| (0..h.len()).map(move |i| { let mut t = s.clone(); t.push(i); t })).collect(); seqs = next; for s in &seqs {
                let mut seen: Vec<usize> = Vec::new();
                let order: Vec<(usize, String)> = s.iter().map(|&i| { let c: usize = seen.iter().filter(|&&x| x == i).count(); seen.push(i); (i, if c == 0 { h[i].clone() } else { format!("{}{}", h[i], c) }) }).collect();
                ctx.case(|| format!("{n} with the tables {order:?}"), |ctx| one(ctx, arranged(d, &order), true));
            } }
            // Every heading replaced, singly and in pairs.
            for i in 0..h.len() { for x in &names { for j in i..h.len() { for y in if j == i { vec![x] } else { names.iter().collect() } {
                let mut order: Vec<(usize, String)> = h.iter().cloned().enumerate().collect();
                order[i].1 = x.clone(); order[j].1 = y.clone();
                ctx.case(|| format!("{n} with the headings {order:?}"), |ctx| one(ctx, arranged(d, &order), true));
            } } } }
            if ctx.done() { return; }
        }

        ctx.family("values");
        let vals: Vec<Value> = values();
        for (n, d) in &docs {
            let ps: Vec<(String, String, Option<String>)> = places(d);
            for p in &ps {
                ctx.case(|| format!("{n} without {p:?}"), |ctx| one(ctx, put(d, p, None), true));
                for v in &vals { ctx.case(|| format!("{n} with {p:?} = {v}"), |ctx| one(ctx, put(d, p, Some(v)), true)); }
                // Copied from, and put under the name of, every other place.
                for q in &ps {
                    let dd: DocumentMut = d.parse().expect("doc");
                    let v: Value = match &q.2 { None => dd[&q.0][&q.1].as_value().unwrap().clone(), Some(x) => dd[&q.0][&q.1][x].as_value().unwrap().clone() };
                    ctx.case(|| format!("{n} with {p:?} from {q:?}"), |ctx| one(ctx, put(d, p, Some(&v)), true));
                    ctx.case(|| format!("{n} with {p:?} from {q:?}, which is lost"), |ctx| one(ctx, put(&put(d, p, Some(&v)), q, None), true));
                    let away: (String, String, Option<String>) = (q.0.clone(), if p.2.is_none() { p.1.clone() } else { q.1.clone() }, p.2.clone());
                    ctx.case(|| format!("{n} with the value of {q:?} at {away:?}"), |ctx| one(ctx, put(d, &away, Some(&v)), true));
                }
            }
            if ctx.quick() && *n != "two" { continue; }
            for (i, p) in ps.iter().enumerate() { for q in &ps[i + 1..] { for v in &vals { for w in &vals {
                ctx.case(|| format!("{n} with {p:?} = {v} and {q:?} = {w}"), |ctx| one(ctx, put(&put(d, p, Some(v)), q, Some(w)), true));
            } } if ctx.done() { return; } } }
        }

        ctx.family("splices");
        for (n, d) in &docs { for (m, e) in &docs {
            let cuts = |t: &str| -> Vec<usize> { let mut v: Vec<usize> = t.char_indices().filter(|&(i, c)| c == '\n' || i == 0 || !ctx.quick()).map(|(i, _)| i).collect(); v.push(t.len()); v };
            let (a, z): (Vec<usize>, Vec<usize>) = (cuts(d), cuts(e));
            for &i in &a { for &j in &z { ctx.case(|| format!("{n} up to {i}, then {m} from {j}"), |ctx| one(ctx, format!("{}{}", &d[..i], &e[j..]), true)); } if ctx.done() { return; } }
        } }

        ctx.family("scraps");
        let ab: Vec<char> = "[]_01a=\"'{}.,#\n -é".chars().collect();
        for len in 0..=ctx.pick(4, 5) {
            for code in 0..ab.len().pow(len) {
                if code & 0xFFF == 0 && ctx.done() { return; }
                ctx.case(|| format!("text {len} {code}"), |ctx| one(ctx, (0..len).map(|i| ab[code / ab.len().pow(i) % ab.len()]).collect(), true));
            }
        }
        const T: &str = "mc::props::scenes::east::Twin";
        let bits: Vec<String> = vec!["[A_0]\n".into(), "[A_1]\n".into(), "[B_0]\n".into(), format!("metadata = {{ type_name = \"{T}\", is_owner = true }}\n"), format!("metadata = {{ type_name = \"{T}\", is_owner = false, parent = 0 }}\n"),
            format!("metadata = {{ type_name = \"{T}\", is_owner = true, parent = 1 }}\n"), "v = 3\n".into(), "v = \"3\"\n".into(), format!("[A_0.metadata]\ntype_name = \"{T}\"\nis_owner = true\n"), format!("metadata.type_name = \"{T}\"\nmetadata.is_owner = true\n"), "metadata.parent = 0\n".into(), "[[A_1]]\n".into(), "metadata = 5\n".into(),
            format!("[C_2]\nmetadata = {{ type_name = \"{T}\", is_owner = true, parent = 1 }}\nv = 1\n")];
        for len in 1..=ctx.pick(5u32, 6) {
            for code in 0..bits.len().pow(len) {
                if code & 0xFFF == 0 && ctx.done() { return; }
                ctx.case(|| format!("pieces {:?}", (0..len).map(|i| code / bits.len().pow(i) % bits.len()).collect::<Vec<_>>()), |ctx| one(ctx, (0..len).map(|i| bits[code / bits.len().pow(i) % bits.len()].as_str()).collect(), true));
            }
        }

        ctx.family("files");
        for (n, d) in &docs { for i in 0..d.len() { ctx.case(|| format!("file {n} cut or spoilt at byte {i}"), |ctx| {
            let path: PathBuf = PathBuf::from(std::env::var("MC_SCRATCH").unwrap_or_else(|_| ".".into())).join(format!("f-{}.scn", std::process::id()));
            for how in 0..4 {
                let mut bytes: Vec<u8> = d.as_bytes().to_vec();
                match how { 0 => bytes.truncate(i), 1 => bytes[i] = 0xFF, 2 => bytes[i] = 0x80, _ => bytes.insert(i, 0xC3) }
                std::fs::write(&path, &bytes).map_err(|e| e.to_string())?;
                let text: Result<&str, _> = std::str::from_utf8(&bytes);
                let got: Result<NodeScene, String> = NodeScene::load(&path);
                match (got, text) {
                    (Ok(s), Ok(t))  => { only_described(&s, &mut entries(t)?, None)?; burn(s); },
                    (Ok(_), Err(_)) => return Err("a scene is loaded from a file that is not text".into()),
                    _ => ()
                }
                ctx.st.executions += 1; ctx.st.transitions += 1;
            }
            let _ = std::fs::remove_file(&path);
            Ok(())
        }); } }

        ctx.family("scale");
        for k in ctx.pick(vec![50, 79, 80, 81, 128, 1000, 20000, 200000], vec![50, 79, 80, 81, 100, 128, 256, 1000, 5000, 20000, 200000, 1000000]) {
            for (what, t) in [("[", "[".repeat(k)), ("x=[", format!("x={}", "[".repeat(k))), ("closed", format!("x={}{}", "[".repeat(k), "]".repeat(k))), ("{", format!("x={}", "{a=".repeat(k))), ("dots", format!("[a{}]", ".a".repeat(k))), ("dotted", format!("[A_0]\nmetadata{} = 1", ".a".repeat(k))), ("quote", format!("x={}", "\"".repeat(k))), ("key", format!("[{}_0]\nmetadata = {{ type_name = \"{T}\", is_owner = true }}\nv = 1\n", "k".repeat(k))), ("digits", format!("[a_{}]\nmetadata = {{ type_name = \"{T}\", is_owner = true }}\nv = 1\n", "1".repeat(k)))] {
                ctx.case(|| format!("{k} times {what}"), |ctx| one(ctx, t, true));
            }
            for (what, v) in [("arrays", format!("{}{}", "[".repeat(k), "]".repeat(k))), ("tables", format!("{}1{}", "{ value = ".repeat(k), "}".repeat(k)))] {
                ctx.case(|| format!("{k} {what} in a field"), |ctx| one(ctx, format!("[A_0]\nmetadata = {{ type_name = \"mc::props::scenes::All\", is_owner = true }}\nexp = \"\"\nexpd = {v}\n"), true));
            }
        }
        for k in ctx.pick(vec![100usize, 1000], vec![100, 1000, 3000]) { for (what, parent) in [("chain", 0), ("self", 1), ("ahead", 2), ("all below the first", 3)] {
            ctx.case(|| format!("{what} of {k} nodes"), |ctx| {
                let mut t: String = String::new();
                for i in 0..k {
                    let p: usize = match parent { 0 => i.wrapping_sub(1), 1 => i, 2 => i + 1, _ => 1 };
                    let p: String = if i == 0 { String::new() } else { format!(", parent = {}", if parent == 3 && i == 1 { 0 } else { p }) };
                    t += &format!("[A_{i}]\nmetadata = {{ type_name = \"{T}\", is_owner = false{p} }}\nv = {i}\n");
                }
                ctx.beat();
                one(ctx, t, k <= 1000)
            });
        } }
    }
};
