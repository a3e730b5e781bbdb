//! Behaviour-preserving source edits, applied in bulk: a test bed for the precision of the checks.
//! usage: refactor MODE SEED RATE DISABLED FILE...   (rewrites the files, prints "id file first last" lines)
use std::{collections::HashSet, env, fs};
use syn::{spanned::Spanned, visit::Visit, *};

struct V<'a> {
    mode: &'a str,
    src: &'a str,
    lines: Vec<usize>,
    edits: Vec<(usize, usize, String)>,
    in_else: HashSet<(usize, usize)>,
    ret_result: bool,
}
impl<'a> V<'a> {
    fn off(&self, p: proc_macro2::LineColumn) -> usize {
        let l = self.lines[p.line - 1];
        let line = &self.src[l..];
        l + line.char_indices().nth(p.column).map(|x| x.0).unwrap_or(line.len())
    }
    fn rg<T: Spanned>(&self, t: &T) -> (usize, usize) {
        let s = t.span();
        (self.off(s.start()), self.off(s.end()))
    }
    fn tx<T: Spanned>(&self, t: &T) -> String {
        let (a, b) = self.rg(t);
        self.src[a..b].to_string()
    }
    fn ed<T: Spanned>(&mut self, t: &T, s: String) {
        let (a, b) = self.rg(t);
        self.edits.push((a, b, s));
    }
}
fn has_let(e: &Expr) -> bool {
    struct L(bool);
    impl<'b> Visit<'b> for L {
        fn visit_expr_let(&mut self, _: &'b ExprLet) {
            self.0 = true
        }
        fn visit_expr_closure(&mut self, _: &'b ExprClosure) {}
        fn visit_expr_block(&mut self, _: &'b ExprBlock) {}
        fn visit_expr_match(&mut self, _: &'b ExprMatch) {}
        fn visit_expr_if(&mut self, _: &'b ExprIf) {}
    }
    let mut l = L(false);
    l.visit_expr(e);
    l.0
}
fn simple(e: &Expr) -> bool {
    match e {
        Expr::Lit(_) | Expr::Path(_) => true,
        Expr::Field(f) => simple(&f.base),
        Expr::Unary(u) => simple(&u.expr),
        _ => false,
    }
}
fn has_jump(t: &str) -> bool {
    ["return", "break", "continue", "?"].iter().any(|w| t.contains(w))
}
impl<'a, 'b> Visit<'b> for V<'a> {
    fn visit_item_mod(&mut self, m: &'b ItemMod) {
        if m.attrs.iter().any(|a| self.tx(a).contains("cfg(test)")) {
            return;
        }
        visit::visit_item_mod(self, m);
    }
    fn visit_expr_if(&mut self, e: &'b ExprIf) {
        let c = self.tx(&*e.cond);
        let t = self.tx(&e.then_branch);
        let el = e.else_branch.as_ref().map(|x| {
            let s = self.tx(&*x.1);
            if s.starts_with('{') { s } else { format!("{{ {s} }}") }
        });
        match self.mode {
            "bindcond" if !has_let(&e.cond) => {
                let e2 = el.map(|s| format!(" else {s}")).unwrap_or_default();
                self.ed(e, format!("{{ let c_ = {c}; if c_ {t}{e2} }}"));
            }
            "swapif" if !has_let(&e.cond) => {
                if let Some(s) = el {
                    self.ed(e, format!("if !({c}) {s} else {t}"));
                } 
            }
            "matchbool" if !has_let(&e.cond) => {
                let s = el.unwrap_or("{}".into());
                self.ed(e, format!("match {c} {{ true => {t} false => {s} }}"));
            }
            "letmatch" => {
                if let Expr::Let(l) = &*e.cond {
                    let p = self.tx(&*l.pat);
                    let x = self.tx(&*l.expr);
                    let s = el.unwrap_or("{}".into());
                    self.ed(e, format!("match {x} {{ {p} => {t} _ => {s} }}"));
                }
            }
            "andnest" if e.else_branch.is_none() => {
                if let Expr::Binary(b) = &*e.cond {
                    if matches!(b.op, BinOp::And(_)) {
                        let (l, r) = (self.tx(&*b.left), self.tx(&*b.right));
                        self.ed(e, format!("if {l} {{ if {r} {t} }}"));
                    }
                }
            }
            "flag" if e.else_branch.is_some() && !has_let(&e.cond) => {
                // two consecutive ifs on a flag
                let s = el.unwrap();
                if !self.in_else.contains(&self.rg(e)) {
                    self.ed(e, format!("{{ let c_: bool = {c}; if c_ {t} if !c_ {s} }}"));
                }
            }
            _ => {}
        }
        if let Some((_, x)) = &e.else_branch {
            let r = self.rg(&**x);
            self.in_else.insert(r);
        }
        visit::visit_expr_if(self, e);
    }
    fn visit_expr_match(&mut self, m: &'b ExprMatch) {
        if self.mode == "matchif" && m.arms.len() == 2 && m.arms[0].guard.is_none() && m.arms[1].guard.is_none() {
            let w = self.tx(&m.arms[1].pat);
            let (x, p, a, b) = (self.tx(&*m.expr), self.tx(&m.arms[0].pat), self.tx(&*m.arms[0].body), self.tx(&*m.arms[1].body));
            if w == "_" || w == "None" || w == "Err(_)" {
                self.ed(m, format!("if let {p} = {x} {{ {a} }} else {{ {b} }}"));
            }
        }
        if self.mode == "armswap" && m.arms.len() == 2 && m.arms.iter().all(|a| a.guard.is_none()) {
            let w = self.tx(&m.arms[1].pat);
            if w != "_" && !w.chars().next().unwrap().is_lowercase() {
                let (x, p, a, b) = (self.tx(&*m.expr), self.tx(&m.arms[0].pat), self.tx(&*m.arms[0].body), self.tx(&*m.arms[1].body));
                self.ed(m, format!("match {x} {{ {w} => {{ {b} }} {p} => {{ {a} }} }}"));
            }
        }
        visit::visit_expr_match(self, m);
    }
    fn visit_expr_for_loop(&mut self, f: &'b ExprForLoop) {
        if f.label.is_none() {
            let (p, x, b) = (self.tx(&*f.pat), self.tx(&*f.expr), self.tx(&f.body));
            match self.mode {
                "forwhile" => self.ed(f, format!("{{ let mut it_ = ({x}).into_iter(); while let Some({p}) = it_.next() {b} }}")),
                "forloop" => self.ed(f, format!("{{ let mut it_ = ({x}).into_iter(); loop {{ match it_.next() {{ Some({p}) => {b} None => break, }} }} }}")),
                "foridx" => {
                    let s = x.trim_end_matches(".iter()").trim_start_matches("&").trim().to_string();
                    if s != x {
                        if let Some((a, bb)) = p.strip_prefix('(').and_then(|q| q.strip_suffix(')')).and_then(|q| q.split_once(',')) {
                            let _ = (a, bb);
                        } else {
                            self.ed(f, format!("{{ let mut i_ = 0; while i_ < {s}.len() {{ let {p} = &{s}[i_]; i_ += 1; {b} }} }}"));
                        }
                    }
                }
                "forrange" => {
                    let s = x.trim_end_matches(".iter()").trim_start_matches("&").trim().to_string();
                    if s != x && !p.starts_with('(') {
                        self.ed(f, format!("for i_ in 0..{s}.len() {{ let {p} = &{s}[i_]; {b} }}"));
                    }
                }
                "foreach" => {
                    if !has_jump(&b) {
                        self.ed(f, format!("({x}).into_iter().for_each(|{p}| {b});"));
                    }
                }
                _ => {}
            }
        }
        visit::visit_expr_for_loop(self, f);
    }
    fn visit_expr_while(&mut self, w: &'b ExprWhile) {
        if self.mode == "whileloop" && w.label.is_none() && !has_let(&w.cond) {
            let (c, b) = (self.tx(&*w.cond), self.tx(&w.body));
            self.ed(w, format!("loop {{ if !({c}) {{ break; }} {b} }}"));
        }
        visit::visit_expr_while(self, w);
    }
    fn visit_expr_binary(&mut self, b: &'b ExprBinary) {
        let (l, r) = (self.tx(&*b.left), self.tx(&*b.right));
        match (self.mode, &b.op) {
            ("flipcmp", BinOp::Lt(_)) => self.ed(b, format!("({r}) > ({l})")),
            ("flipcmp", BinOp::Gt(_)) => self.ed(b, format!("({r}) < ({l})")),
            ("flipcmp", BinOp::Le(_)) => self.ed(b, format!("!(({l}) > ({r}))")),
            ("flipcmp", BinOp::Ge(_)) => self.ed(b, format!("({r}) <= ({l})")),
            ("flipcmp", BinOp::Ne(_)) => self.ed(b, format!("!(({l}) == ({r}))")),
            ("flipcmp", BinOp::Eq(_)) => self.ed(b, format!("!(({l}) != ({r}))")),
            ("demorgan", BinOp::And(_)) if !has_let(&b.left) && !has_let(&b.right) => self.ed(b, format!("(!(!({l}) || !({r})))")),
            ("demorgan", BinOp::Or(_)) => self.ed(b, format!("(!(!({l}) && !({r})))")),
            ("boolif", BinOp::And(_)) if !has_let(&b.left) && !has_let(&b.right) => self.ed(b, format!("(if {l} {{ {r} }} else {{ false }})")),
            ("boolif", BinOp::Or(_)) => self.ed(b, format!("(if {l} {{ true }} else {{ {r} }})")),
            _ => {}
        }
        visit::visit_expr_binary(self, b);
    }
    fn visit_expr_method_call(&mut self, m: &'b ExprMethodCall) {
        let n = m.method.to_string();
        let r = self.tx(&*m.receiver);
        if m.args.is_empty() {
            match (self.mode, n.as_str()) {
                ("optneg", "is_some") => self.ed(m, format!("!({r}).is_none()")),
                ("optneg", "is_none") => self.ed(m, format!("!({r}).is_some()")),
                ("optneg", "is_empty") => self.ed(m, format!("(({r}).len() == 0)")),
                ("optneg", "is_ok") => self.ed(m, format!("!({r}).is_err()")),
                ("optneg", "is_err") => self.ed(m, format!("matches!({r}, Err(_))")),
                ("optmatch", "is_some") => self.ed(m, format!("matches!({r}, Some(_))")),
                ("optmatch", "is_none") => self.ed(m, format!("matches!({r}, None)")),
                ("optmatch", "unwrap_or_default") => self.ed(m, format!("{r}.unwrap_or(Default::default())")),
                _ => {}
            }
        }
        if m.args.len() == 1 {
            let a = &m.args[0];
            if let Expr::Closure(c) = a {
                if c.inputs.len() == 1 {
                    let (p, b) = (self.tx(&c.inputs[0]), self.tx(&*c.body));
                    match (self.mode, n.as_str()) {
                        ("chains", "any") => self.ed(m, format!("{{ let mut r_ = false; for {p} in {r} {{ if {b} {{ r_ = true; break; }} }} r_ }}")),
                        ("chains", "all") => self.ed(m, format!("{{ let mut r_ = true; for {p} in {r} {{ if !({b}) {{ r_ = false; break; }} }} r_ }}")),
                        ("chains", "and_then") => self.ed(m, format!("match {r} {{ Some({p}) => {b}, None => None }}")),
                        ("chains", "unwrap_or_else") => {}
                        ("chains", "ok_or_else") => {}
                        ("chains", "is_some_and") => self.ed(m, format!("match {r} {{ Some({p}) => {b}, None => false }}")),
                        ("chains", "is_none_or") => self.ed(m, format!("match {r} {{ Some({p}) => {b}, None => true }}")),
                        ("chains", "map_err") => self.ed(m, format!("match {r} {{ Ok(v_) => Ok(v_), Err({p}) => Err({b}) }}")),
                        _ => {}
                    }
                } else if c.inputs.is_empty() {
                    let b = self.tx(&*c.body);
                    match (self.mode, n.as_str()) {
                        ("chains", "ok_or_else") => self.ed(m, format!("match {r} {{ Some(v_) => Ok(v_), None => Err({b}) }}")),
                        ("chains", "unwrap_or_else") => self.ed(m, format!("match {r} {{ Some(v_) => v_, None => {b} }}")),
                        _ => {}
                    }
                }
            } else {
                let b = self.tx(a);
                match (self.mode, n.as_str()) {
                    ("chains", "unwrap_or") => self.ed(m, format!("match {r} {{ Some(v_) => v_, None => {b} }}")),
                    ("chains", "ok_or") => self.ed(m, format!("match {r} {{ Some(v_) => Ok(v_), None => Err({b}) }}")),
                    _ => {}
                }
            }
        }
        visit::visit_expr_method_call(self, m);
    }
    fn visit_expr_try(&mut self, t: &'b ExprTry) {
        let x = self.tx(&*t.expr);
        match self.mode {
            "qmark" => self.ed(t, format!("(match {x} {{ Ok(v_) => v_, Err(e_) => return Err(e_.into()) }})")),
            "qopt" => self.ed(t, format!("(match {x} {{ Some(v_) => v_, None => return None }})")),
            _ => {}
        }
        visit::visit_expr_try(self, t);
    }
    fn visit_block(&mut self, b: &'b Block) {
        if self.mode == "swapstmt" {
            let mut i = 0;
            while i + 1 < b.stmts.len() {
                let ok = |s: &Stmt| match s {
                    Stmt::Expr(Expr::Assign(a), Some(_)) => simple(&a.left) && simple(&a.right),
                    Stmt::Local(l) => l.init.as_ref().is_some_and(|i| simple(&i.expr) || matches!(&*i.expr, Expr::Macro(_)) && self.tx(&*i.expr).starts_with("vec![]") || self.tx(&*i.expr) == "Vec::new()" || self.tx(&*i.expr) == "String::new()"),
                    Stmt::Expr(Expr::MethodCall(m), Some(_)) => m.method == "clear" && simple(&m.receiver),
                    _ => false,
                };
                if ok(&b.stmts[i]) && ok(&b.stmts[i + 1]) {
                    let (x, y) = (self.tx(&b.stmts[i]), self.tx(&b.stmts[i + 1]));
                    let name = |s: &str| s.trim_start_matches("let ").trim_start_matches("mut ").split(|c: char| !c.is_alphanumeric() && c != '_' && c != '.').next().unwrap().to_string();
                    if !y.contains(&name(&x)) && !x.contains(&name(&y)) {
                        let (s, _) = self.rg(&b.stmts[i]);
                        let (_, e) = self.rg(&b.stmts[i + 1]);
                        self.edits.push((s, e, format!("{y}\n{x}")));
                    }
                    i += 1;
                }
                i += 1;
            }
        }
        if self.mode == "letswap" {
            // two adjacent lets of calls without mutation
            let mut i = 0;
            while i + 1 < b.stmts.len() {
                if let (Stmt::Local(x), Stmt::Local(y)) = (&b.stmts[i], &b.stmts[i + 1]) {
                    let (tx, ty) = (self.tx(x), self.tx(y));
                    let (nx, ny) = (self.tx(&x.pat), self.tx(&y.pat));
                    let pure = |t: &str| !t.contains("mut") && !t.contains('?') && !t.contains("pop") && !t.contains("next") && !t.contains("push") && !t.contains("advance") && !t.contains("parse") && !t.contains("read") && !t.contains("else");
                    let id = |t: &str| t.trim_start_matches("mut ").split(':').next().unwrap().trim().to_string();
                    if pure(&tx) && pure(&ty) && !ty.contains(&id(&nx)) && !tx.contains(&id(&ny)) {
                        let (s, _) = self.rg(x);
                        let (_, e) = self.rg(y);
                        self.edits.push((s, e, format!("{ty}\n{tx}")));
                        i += 1;
                    }
                }
                i += 1;
            }
        }
        if self.mode == "bindarg" {
            for s in &b.stmts {
                if let Stmt::Expr(Expr::MethodCall(m), Some(_)) = s {
                    if m.args.len() > 0 && m.args.iter().all(|a| !matches!(a, Expr::Closure(_))) {
                        let mut o = String::from("{ ");
                        let mut names = vec![];
                        for (i, a) in m.args.iter().enumerate() {
                            o += &format!("let a{i}_ = {}; ", self.tx(a));
                            names.push(format!("a{i}_"));
                        }
                        o += &format!("{}.{}{}({}); }}", self.tx(&*m.receiver), m.method, m.turbofish.as_ref().map(|t| self.tx(t)).unwrap_or_default(), names.join(", "));
                        self.ed(s, o);
                    }
                }
            }
        }
        visit::visit_block(self, b);
    }
    fn visit_impl_item_fn(&mut self, f: &'b ImplItemFn) {
        self.func(&f.sig, &f.block, f);
        visit::visit_impl_item_fn(self, f);
    }
    fn visit_item_fn(&mut self, f: &'b ItemFn) {
        self.func(&f.sig, &f.block, f);
        visit::visit_item_fn(self, f);
    }
    fn visit_item_impl(&mut self, i: &'b ItemImpl) {
        if i.trait_.is_some() && self.mode == "wrapfn" {
            return;
        }
        visit::visit_item_impl(self, i);
    }
    fn visit_item_trait(&mut self, _: &'b ItemTrait) {}
}
impl<'a> V<'a> {
    fn func<T: Spanned>(&mut self, sig: &Signature, block: &Block, whole: &T) {
        let _ = self.ret_result;
        let unit = matches!(sig.output, ReturnType::Default);
        let name = sig.ident.to_string();
        match self.mode {
            "letret" if !unit => {
                if let Some(Stmt::Expr(e, None)) = block.stmts.last() {
                    let t = self.tx(e);
                    self.ed(e, format!("let r_ = {t};\nr_"));
                }
            }
            "retkw" if !unit => {
                if let Some(Stmt::Expr(e, None)) = block.stmts.last() {
                    let t = self.tx(e);
                    self.ed(e, format!("return {t};"));
                }
            }
            "earlyret" if unit => {
                if let Some(Stmt::Expr(Expr::If(e), _)) = block.stmts.last() {
                    if e.else_branch.is_none() && !has_let(&e.cond) {
                        let (c, t) = (self.tx(&*e.cond), self.tx(&e.then_branch));
                        let l = block.stmts.last().unwrap();
                        self.ed(l, format!("if !({c}) {{ return; }}\n{t}"));
                    }
                    if e.else_branch.is_none() {
                        if let Expr::Let(x) = &*e.cond {
                            let (p, v, t) = (self.tx(&*x.pat), self.tx(&*x.expr), self.tx(&e.then_branch));
                            let l = block.stmts.last().unwrap();
                            self.ed(l, format!("let {p} = {v} else {{ return; }};\n{t}"));
                        }
                    }
                }
            }
            "wrapfn" => {
                let mut args = vec![];
                let mut recv = false;
                for a in &sig.inputs {
                    match a {
                        FnArg::Receiver(_) => recv = true,
                        FnArg::Typed(t) => match &*t.pat {
                            Pat::Ident(i) => args.push(i.ident.to_string()),
                            _ => return,
                        },
                    }
                }
                if name == "main" || block.stmts.is_empty() {
                    return;
                }
                let s = self.tx(sig);
                let b = self.tx(block);
                let q = if recv { "self." } else { "" };
                let is_impl = self.src[..self.rg(whole).0].rfind("\nimpl").is_some() && self.src[self.lines[whole.span().start().line - 1]..].starts_with(' ');
                let q = if q.is_empty() && is_impl { "Self::" } else { q };
                let s2 = s.replacen(&format!("fn {name}"), &format!("fn {name}_body"), 1);
                let (a0, a1) = (self.rg(sig).0, self.rg(whole).1);
                self.edits.push((a0, a1, format!("{s} {{ {q}{name}_body({}) }}\n    {s2} {b}", args.join(", "))));
            }
            "tail" => {
                // the second half of the statements goes into a helper closure-free function when it needs only self
                let n = block.stmts.len();
                if n >= 3 && unit {
                    let recv = sig.inputs.iter().find_map(|a| if let FnArg::Receiver(r) = a { Some(self.tx(r)) } else { None });
                    if let Some(r) = recv {
                        let k = n / 2;
                        let (a, _) = self.rg(&block.stmts[k]);
                        let (_, z) = self.rg(&block.stmts[n - 1]);
                        let body = self.src[a..z].to_string();
                        let (_, e) = self.rg(whole);
                        let s0 = self.rg(sig).0;
                        let head = self.src[s0..a].to_string();
                        // arguments named in the tail are passed on
                        let mut ps = vec![];
                        let mut as_ = vec![];
                        for x in &sig.inputs {
                            if let FnArg::Typed(t) = x {
                                let nm = self.tx(&*t.pat);
                                if body.contains(nm.trim_start_matches("mut ")) {
                                    ps.push(self.tx(t));
                                    as_.push(nm.trim_start_matches("mut ").to_string());
                                }
                            }
                        }
                        let ps = ps.iter().map(|p| format!(", {p}")).collect::<String>();
                        self.edits.push((s0, e, format!("{head} self.{name}_rest({}); }}\n    fn {name}_rest({r}{ps}) {{ {body} }}", as_.join(", "))));
                    }
                }
            }
            _ => {}
        }
    }
}

fn main() {
    let a: Vec<String> = env::args().collect();
    let (mode, seed, rate) = (&a[1], a[2].parse::<u64>().unwrap(), a[3].parse::<u64>().unwrap());
    let dis: HashSet<String> = fs::read_to_string(&a[4]).unwrap_or_default().lines().map(|x| x.to_string()).collect();
    for f in &a[5..] {
        let src = fs::read_to_string(f).unwrap();
        let ast = match syn::parse_file(&src) {
            Ok(x) => x,
            Err(e) => {
                eprintln!("{f}: {e}");
                continue;
            }
        };
        let mut lines = vec![0];
        for (i, c) in src.char_indices() {
            if c == '\n' {
                lines.push(i + 1);
            }
        }
        let mut v = V { mode, src: &src, lines, edits: vec![], in_else: HashSet::new(), ret_result: false };
        v.visit_file(&ast);
        let mut es = v.edits;
        es.sort();
        es.dedup();
        // choose: random subset, then drop overlaps at random
        let h = |s: usize| -> u64 {
            let mut x = (s as u64).wrapping_mul(0x9E3779B97F4A7C15) ^ seed.wrapping_mul(0xD1B54A32D192ED03);
            x ^= x >> 29;
            x = x.wrapping_mul(0xBF58476D1CE4E5B9);
            x ^= x >> 32;
            x
        };
        let mut order: Vec<usize> = (0..es.len()).collect();
        order.sort_by_key(|&i| h(es[i].0 * 31 + es[i].1));
        let mut used: Vec<usize> = vec![];
        for i in order {
            if h(es[i].0 + 7) % 100 >= rate || dis.contains(&format!("{f}:{}", es[i].0)) {
                continue;
            }
            if used.iter().all(|&j| es[j].1 <= es[i].0 || es[i].1 <= es[j].0) {
                used.push(i);
            }
        }
        used.sort();
        let mut out = String::new();
        let mut p = 0;
        for &i in &used {
            let (s, e, t) = &es[i];
            out += &src[p..*s];
            let l0 = out.matches('\n').count() + 1;
            out += t;
            let l1 = out.matches('\n').count() + 1;
            println!("{f}:{s} {f} {l0} {l1}");
            p = *e;
        }
        out += &src[p..];
        fs::write(f, out).unwrap();
    }
}
