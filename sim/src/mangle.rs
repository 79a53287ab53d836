//! Questions and transactions which nobody would write: text that was well-formed, put out of shape.

use crate::rng::Rng;

#[derive(Clone, Debug, PartialEq)]
enum Node {
    Atom(String),
    Seq(&'static str, Vec<Node>, &'static str),
}

fn tokens(s: &str) -> Vec<String> {
    let cs: Vec<char> = s.chars().collect();
    let mut out = vec![];
    let mut i = 0;
    while i < cs.len() {
        let c = cs[i];
        if c.is_whitespace() || c == ',' {
            i += 1;
        } else if "[](){}".contains(c) {
            out.push(c.to_string());
            i += 1;
        } else if c == '"' {
            let mut t = String::from('"');
            i += 1;
            while i < cs.len() {
                t.push(cs[i]);
                if cs[i] == '\\' && i + 1 < cs.len() {
                    i += 1;
                    t.push(cs[i]);
                } else if cs[i] == '"' {
                    break;
                }
                i += 1;
            }
            i += 1;
            out.push(t);
        } else {
            let mut t = String::new();
            while i < cs.len() && !cs[i].is_whitespace() && !"[](){},\"".contains(cs[i]) {
                t.push(cs[i]);
                i += 1;
            }
            if t == "#inst" || t == "#uuid" || t == "#instmillis" || t == "#instmicros" {
                // One thing with what follows.
                while i < cs.len() && cs[i].is_whitespace() {
                    i += 1;
                }
                t.push(' ');
                while i < cs.len() && !cs[i].is_whitespace() && !"[](){},".contains(cs[i]) {
                    t.push(cs[i]);
                    i += 1;
                }
            }
            out.push(t);
        }
    }
    out
}

fn parse(ts: &[String], i: &mut usize) -> Option<Node> {
    let t = ts.get(*i)?;
    *i += 1;
    let (open, close) = match t.as_str() {
        "[" => ("[", "]"),
        "(" => ("(", ")"),
        "{" => ("{", "}"),
        "]" | ")" | "}" => return None,
        _ => return Some(Node::Atom(t.clone())),
    };
    let mut out = vec![];
    loop {
        if ts.get(*i)? == close {
            *i += 1;
            return Some(Node::Seq(open, out, close));
        }
        out.push(parse(ts, i)?);
    }
}

fn show(n: &Node, out: &mut String) {
    match n {
        Node::Atom(a) => out.push_str(a),
        Node::Seq(o, ns, c) => {
            out.push_str(o);
            for (i, n) in ns.iter().enumerate() {
                if i > 0 {
                    out.push(' ');
                }
                show(n, out);
            }
            out.push_str(c);
        }
    }
}

/// How many places there are in it.
fn count(n: &Node) -> u64 {
    match n {
        Node::Atom(_) => 1,
        Node::Seq(_, ns, _) => 1 + ns.iter().map(count).sum::<u64>(),
    }
}

fn atoms<'a>(n: &'a Node, out: &mut Vec<&'a str>) {
    match n {
        Node::Atom(a) => out.push(a),
        Node::Seq(_, ns, _) => ns.iter().for_each(|n| atoms(n, out)),
    }
}

const ODD: &[&str] = &[
    "5N", "-7N", "\"x\"", "\"\"", "\"\\\"\"", "1.5", "-0.5", "0", "-1", "1", "9999", "65536", "268435457", "9223372036854775807",
    "-9223372036854775808", "99999999999999999999", ":k/a", ":db/ident", ":db/id", ":db/add", ":p/nothing", ":p/_nothing", ":x", "nil",
    "true", "false", "_", "$", "$x", "%", ".", "...", "?", "?q", "?e1", "?v1", "x", "*", "-", "+", "<", "!=", "ground", "fulltext", "tx-ids",
    "tx-data", "tx-before", "frob", "pull", "the", "count", "max", "avg", "sum", "min", "desc", "asc", "not", "or", "and", "not-join",
    "or-join", "type", "[]", "()", "{}", "[1 2]", "[[1 2] [3]]", "[?x ...]", "[[?x ?y]]", "[?e1 ?v1]", "(max ?e1)", "(the ?v1)",
    "(pull ?e1 [*])", "(transaction-tx)", "(lookup-ref :db/ident :db/ident)", ":find", ":where", ":in", ":with", ":order", ":limit", ":as",
    "#inst \"2019-01-01T00:00:00Z\"", "#uuid \"4cb3f828-752d-497a-90c9-b1fd516d5644\"", "#instmillis 5", "#f NaN", "#f +Infinity",
    "\\\\", "#{1 2}", "; what follows is lost",
];

fn visit(n: &mut Node, at: &mut u64, f: &mut dyn FnMut(&mut Vec<Node>, usize)) -> bool {
    if let Node::Seq(_, ns, _) = n {
        for i in 0..ns.len() {
            if *at == 0 {
                f(ns, i);
                return true;
            }
            *at -= 1;
            if visit(&mut ns[i], at, f) {
                return true;
            }
        }
    }
    false
}

fn once(r: &mut Rng, n: &mut Node) {
    let all: Vec<String> = {
        let mut v = vec![];
        atoms(n, &mut v);
        v.into_iter().map(String::from).collect()
    };
    let places = count(n) - 1;
    if places == 0 || all.is_empty() {
        return;
    }
    let mut at = r.below(places);
    let how = r.weighted(&[20, 12, 10, 34, 16, 8]);
    let odd = ODD[r.below(ODD.len() as u64) as usize].to_string();
    let other = all[r.below(all.len() as u64) as usize].clone();
    let swap = r.below(1 << 20) as usize;
    let wrap = r.below(3);
    visit(n, &mut at, &mut |ns, i| match how {
        0 => {
            ns.remove(i);
        }
        1 => {
            let x = ns[i].clone();
            ns.insert(i, x);
        }
        2 => {
            let k = swap % ns.len();
            ns.swap(i, k);
        }
        3 => ns[i] = Node::Atom(odd.clone()),
        4 => ns[i] = Node::Atom(other.clone()),
        _ => {
            let x = ns[i].clone();
            ns[i] = match wrap {
                0 => Node::Seq("[", vec![x], "]"),
                1 => Node::Seq("(", vec![x], ")"),
                _ => match x {
                    Node::Seq(_, ns, _) => Node::Seq("(", ns, ")"),
                    x => Node::Seq("[", vec![x.clone(), x], "]"),
                },
            };
        }
    });
}

fn word(r: &mut Rng, vars: &[String]) -> String {
    match r.below(4) {
        0 | 1 if !vars.is_empty() => vars[r.below(vars.len() as u64) as usize].clone(),
        0 => "_".to_string(),
        _ => format!("?z{}", r.below(3)),
    }
}

fn constant(r: &mut Rng, vars: &[String]) -> String {
    match r.below(12) {
        0 => word(r, vars),
        1 => "\"x\"".to_string(),
        2 => ":k/a".to_string(),
        3 => ":db/ident".to_string(),
        4 => "1.5".to_string(),
        5 => "true".to_string(),
        6 => "65537".to_string(),
        7 => "#inst \"2019-01-01T00:00:00Z\"".to_string(),
        8 => ODD[r.below(ODD.len() as u64) as usize].to_string(),
        _ => r.below(3).to_string(),
    }
}

fn several(r: &mut Rng, most: u64, f: &mut dyn FnMut(&mut Rng) -> String) -> String {
    let n = r.below(most + 1);
    (0..n).map(|_| f(r)).collect::<Vec<_>>().join(" ")
}

fn binding(r: &mut Rng, vars: &[String], wide: u64) -> String {
    let mut place = |r: &mut Rng| if r.pct(35) { "_".to_string() } else { word(r, vars) };
    match r.below(10) {
        0 => place(r),
        1 => format!("[{} ...]", place(r)),
        2 | 3 => format!("[{}]", several(r, wide + 1, &mut place)),
        _ => format!("[[{}]]", if r.pct(70) { (0..wide).map(|_| place(r)).collect::<Vec<_>>().join(" ") } else { several(r, wide + 1, &mut place) }),
    }
}

/// A clause in which things of the language come together as they may.
fn clause(r: &mut Rng, vars: &[String], deep: u64) -> String {
    match r.below(if deep > 0 { 12 } else { 9 }) {
        0..=3 => {
            let wide = 1 + r.below(3);
            let arg = match r.below(6) {
                0 => constant(r, vars),
                1 => format!("[{}]", several(r, 3, &mut |r| constant(r, vars))),
                _ => {
                    let rows = r.below(3) + (r.below(5) > 0) as u64;
                    let rows: Vec<String> = (0..rows)
                        .map(|_| {
                            let n = if r.pct(75) { wide } else { r.below(wide + 2) };
                            format!("[{}]", (0..n).map(|_| if r.pct(70) { r.below(3).to_string() } else { constant(r, vars) }).collect::<Vec<_>>().join(" "))
                        })
                        .collect();
                    format!("[{}]", rows.join(" "))
                }
            };
            format!("[(ground {}) {}]", arg, binding(r, vars, wide))
        }
        4 => {
            let name = *r.pick(&["tx-ids", "tx-data", "fulltext", "get-else", "ground"]);
            let args = several(r, 4, &mut |r| if r.pct(40) { "$".to_string() } else { constant(r, vars) });
            let wide = 1 + r.below(5);
            format!("[({} {}) {}]", name, args, binding(r, vars, wide))
        }
        5 => {
            let name = *r.pick(&["<", ">=", "!=", "differ", "unpermute", "tx-after", "tx-before", "="]);
            format!("[({} {})]", name, several(r, 3, &mut |r| if r.pct(60) { word(r, vars) } else { constant(r, vars) }))
        }
        6 => {
            let t = *r.pick(&[":db.type/long", ":db.type/ref", ":db.type/string", ":db.type/nothing", "long", "?z0"]);
            format!("[(type {} {})]", word(r, vars), t)
        }
        7 | 8 => {
            let n = 1 + r.below(5);
            let places: Vec<String> = (0..n).map(|_| if r.pct(60) { word(r, vars) } else { constant(r, vars) }).collect();
            format!("[{}]", places.join(" "))
        }
        9 => format!("(not {})", several(r, 2, &mut |r| clause(r, vars, deep - 1))),
        10 => {
            let over = several(r, 2, &mut |r| word(r, vars));
            let name = *r.pick(&["not-join", "or-join"]);
            format!("({} [{}] {})", name, over, several(r, 2, &mut |r| clause(r, vars, deep - 1)))
        }
        _ => {
            let arm = |r: &mut Rng| {
                if r.pct(70) {
                    clause(r, vars, deep - 1)
                } else {
                    format!("(and {})", several(r, 2, &mut |r| clause(r, vars, deep - 1)))
                }
            };
            format!("(or {})", several(r, 3, &mut |r| arm(r)))
        }
    }
}

/// A clause more, or another one instead of one there is.
fn another(r: &mut Rng, n: &mut Node) {
    let mut vars: Vec<String> = {
        let mut v = vec![];
        atoms(n, &mut v);
        v.into_iter().filter(|x| x.starts_with('?')).map(String::from).collect()
    };
    vars.sort();
    vars.dedup();
    let ts = tokens(&clause(r, &vars, 2));
    let mut i = 0;
    let c = match parse(&ts, &mut i) {
        Some(c) => c,
        None => return,
    };
    if let Node::Seq(_, ns, _) = n {
        if let Some(w) = ns.iter().position(|x| *x == Node::Atom(":where".into())) {
            let end = ns.iter().skip(w + 1).position(|x| matches!(x, Node::Atom(a) if a.starts_with(':'))).map_or(ns.len(), |k| w + 1 + k);
            let at = w + 1 + r.below((end - w) as u64) as usize;
            if at < end && r.pct(40) {
                ns[at] = c;
            } else {
                ns.insert(at, c);
            }
        }
    }
}

/// The text, one to three things about which are different.
pub fn mangle(text: &str, salt: u64) -> Option<String> {
    let mut r = Rng::sub(salt, 0x3a9);
    let ts = tokens(text);
    let mut i = 0;
    let mut n = parse(&ts, &mut i)?;
    let more = text.starts_with("[:find") && r.pct(45);
    if more {
        for _ in 0..1 + r.below(2) {
            another(&mut r, &mut n);
        }
    }
    for _ in more as u64..1 + r.below(3) {
        once(&mut r, &mut n);
    }
    let mut out = String::new();
    show(&n, &mut out);
    if r.pct(3) && !out.is_empty() {
        // Cut short.
        let k = r.below(out.chars().count() as u64) as usize;
        out = out.chars().take(k).collect();
    }
    Some(out)
}

/// Whether answering it might take forever: things which have nothing to do with each other are multiplied.
pub fn costly(text: &str) -> bool {
    let ts = tokens(text);
    let mut i = 0;
    let n = match parse(&ts, &mut i) {
        Some(n) => n,
        // It can't be read, then.
        None => return false,
    };
    let mut leaves = vec![];
    clauses(&n, &mut leaves);
    let mut groups: Vec<Vec<String>> = vec![];
    let mut open = 0;
    for l in leaves {
        if l.1 {
            open += 1;
        }
        let (mut with, rest): (Vec<_>, Vec<_>) = groups.into_iter().partition(|g| g.iter().any(|v| l.0.contains(v)));
        groups = rest;
        let mut g = l.0;
        for w in with.drain(..) {
            g.extend(w);
        }
        groups.push(g);
    }
    groups.len() > 2 || open > 2
}

fn clauses(n: &Node, out: &mut Vec<(Vec<String>, bool)>) {
    if let Node::Seq(o, ns, _) = n {
        if *o == "[" && ns.len() > 1 && ns.iter().any(|x| matches!(x, Node::Atom(a) if a.starts_with('?') || a == "_")) {
            let mut v = vec![];
            atoms(n, &mut v);
            let mut vars: Vec<String> = v.iter().filter(|a| a.starts_with('?')).map(|a| a.to_string()).collect();
            vars.dedup();
            let open = !matches!(ns.get(1), Some(Node::Atom(a)) if a.starts_with(':'));
            out.push((vars, open));
        }
        ns.iter().for_each(|n| clauses(n, out));
    }
}
