//! Dumps every non-test function of the given Rust files as a JSON AST.
use proc_macro2::{TokenStream, TokenTree};
use quote::ToTokens;
use serde_json::{json, Value};
use syn::parse::Parser;
use syn::punctuated::Punctuated;
use syn::spanned::Spanned;
use syn::*;

fn toks<T: ToTokens>(t: &T) -> String {
    t.to_token_stream().to_string()
}

fn is_test_attr(attrs: &[Attribute]) -> bool {
    attrs.iter().any(|a| {
        let s = toks(a);
        s.contains("cfg (test)") || s == "# [test]"
    })
}

/// `#[cfg(feature = "blas")]`-like attributes: the build under verification has
/// default features (+ serializable/persistent); returns false when the item is off.
fn cfg_on(attrs: &[Attribute]) -> bool {
    for a in attrs {
        if a.path().is_ident("cfg") {
            let s = toks(a).replace(' ', "");
            let on = match s.as_str() {
                "#[cfg(test)]" => false,
                "#[cfg(feature=\"blas\")]" => false,
                "#[cfg(not(feature=\"blas\"))]" => true,
                "#[cfg(feature=\"nlopt\")]" => false,
                "#[cfg(not(feature=\"nlopt\"))]" => true,
                "#[cfg(feature=\"serializable\")]" => true,
                "#[cfg(feature=\"persistent\")]" => true,
                "#[cfg(not(feature=\"persistent\"))]" => false,
                "#[cfg(not(feature=\"serializable\"))]" => false,
                "#[cfg(feature=\"vp-hooks\")]" => false,
                "#[cfg(not(feature=\"vp-hooks\"))]" => true,
                _ => true,
            };
            if !on {
                return false;
            }
        }
    }
    true
}

fn path_s(p: &Path) -> Value {
    // segments without generic arguments, plus generics of the last
    let segs: Vec<String> = p.segments.iter().map(|s| s.ident.to_string()).collect();
    let gen: Vec<Value> = p
        .segments
        .iter()
        .flat_map(|s| match &s.arguments {
            PathArguments::AngleBracketed(ab) => ab.args.iter().map(|a| Value::String(toks(a))).collect::<Vec<_>>(),
            _ => vec![],
        })
        .collect();
    json!({"segs": segs, "gen": gen})
}

fn lit(l: &Lit) -> Value {
    match l {
        Lit::Int(i) => json!({"k":"lit_int","v":i.base10_digits(),"suffix":i.suffix()}),
        Lit::Float(f) => json!({"k":"lit_float","v":f.base10_digits(),"suffix":f.suffix()}),
        Lit::Bool(b) => json!({"k":"lit_bool","v":b.value}),
        Lit::Str(s) => json!({"k":"lit_str","v":s.value()}),
        Lit::Char(c) => json!({"k":"lit_str","v":c.value().to_string()}),
        o => json!({"k":"lit_other","v":toks(o)}),
    }
}

fn line<T: Spanned>(t: &T) -> usize {
    t.span().start().line
}

fn opt(e: &Option<Box<Expr>>) -> Value {
    match e {
        Some(e) => expr(e),
        None => Value::Null,
    }
}

fn split_commas(ts: TokenStream) -> Vec<TokenStream> {
    let mut out = vec![];
    let mut cur: Vec<TokenTree> = vec![];
    for t in ts {
        if let TokenTree::Punct(p) = &t {
            if p.as_char() == ',' {
                out.push(cur.drain(..).collect());
                continue;
            }
        }
        cur.push(t);
    }
    if !cur.is_empty() {
        out.push(cur.into_iter().collect());
    }
    out
}

fn split_semi(ts: TokenStream) -> Vec<TokenStream> {
    let mut out = vec![];
    let mut cur: Vec<TokenTree> = vec![];
    for t in ts {
        if let TokenTree::Punct(p) = &t {
            if p.as_char() == ';' {
                out.push(cur.drain(..).collect());
                continue;
            }
        }
        cur.push(t);
    }
    out.push(cur.into_iter().collect());
    out
}

fn mac(m: &Macro) -> Value {
    let name = m.path.segments.last().unwrap().ident.to_string();
    let ln = line(&m.path);
    let raw = m.tokens.to_string();
    let fail = |why: &str| json!({"k":"macro","name":name,"raw":raw,"err":why,"line":ln});
    if name == "s" {
        let mut items = vec![];
        for part in split_commas(m.tokens.clone()) {
            let ss = split_semi(part);
            let e = match parse2::<Expr>(ss[0].clone()) {
                Ok(e) => expr(&e),
                Err(_) => return fail("slice expr"),
            };
            let st = if ss.len() > 1 {
                match parse2::<Expr>(ss[1].clone()) {
                    Ok(e) => expr(&e),
                    Err(_) => return fail("slice step"),
                }
            } else {
                Value::Null
            };
            items.push(json!({"e":e,"step":st}));
        }
        return json!({"k":"macro","name":"s","items":items,"line":ln});
    }
    if name == "matches" {
        let p = |input: parse::ParseStream| -> Result<(Expr, Pat, Option<Expr>)> {
            let e: Expr = input.parse()?;
            input.parse::<Token![,]>()?;
            let pt = Pat::parse_multi_with_leading_vert(input)?;
            let g = if input.peek(Token![if]) {
                input.parse::<Token![if]>()?;
                Some(input.parse::<Expr>()?)
            } else {
                None
            };
            let _ = input.parse::<Option<Token![,]>>()?;
            Ok((e, pt, g))
        };
        return match p.parse2(m.tokens.clone()) {
            Ok((e, pt, g)) => json!({"k":"matches","e":expr(&e),"pat":pat(&pt),"guard":g.map(|g|expr(&g)).unwrap_or(Value::Null),"line":ln}),
            Err(_) => fail("matches"),
        };
    }
    // vec![x; n]
    let ss = split_semi(m.tokens.clone());
    if ss.len() == 2 && (name == "vec") {
        if let (Ok(a), Ok(b)) = (parse2::<Expr>(ss[0].clone()), parse2::<Expr>(ss[1].clone())) {
            return json!({"k":"macro","name":"vec_repeat","args":[expr(&a),expr(&b)],"line":ln});
        }
    }
    let parser = Punctuated::<Expr, Token![,]>::parse_terminated;
    match parser.parse2(m.tokens.clone()) {
        Ok(p) => {
            let args: Vec<Value> = p.iter().map(expr).collect();
            json!({"k":"macro","name":name,"args":args,"line":ln})
        }
        Err(_) => fail("args"),
    }
}

fn block(b: &Block) -> Value {
    let mut stmts = vec![];
    for s in &b.stmts {
        match s {
            Stmt::Local(l) => {
                if !cfg_on(&l.attrs) {
                    continue;
                }
                let (pt, ty) = match &l.pat {
                    Pat::Type(t) => (pat(&t.pat), Value::String(toks(&t.ty))),
                    p => (pat(p), Value::Null),
                };
                let (init, els) = match &l.init {
                    Some(i) => (
                        expr(&i.expr),
                        match &i.diverge {
                            Some((_, e)) => expr(e),
                            None => Value::Null,
                        },
                    ),
                    None => (Value::Null, Value::Null),
                };
                stmts.push(json!({"k":"let","pat":pt,"ty":ty,"init":init,"else":els,"line":line(l)}));
            }
            Stmt::Item(i) => stmts.push(item_stmt(i)),
            Stmt::Expr(e, semi) => {
                if !cfg_on(expr_attrs(e)) {
                    continue;
                }
                stmts.push(json!({"k":"expr","e":expr(e),"semi":semi.is_some(),"line":line(e)}));
            }
            Stmt::Macro(m) => {
                if !cfg_on(&m.attrs) {
                    continue;
                }
                stmts.push(json!({"k":"expr","e":mac(&m.mac),"semi":m.semi_token.is_some(),"line":line(m)}));
            }
        }
    }
    json!({"k":"block","stmts":stmts,"line":line(b)})
}

fn item_stmt(i: &Item) -> Value {
    match i {
        Item::Const(c) => json!({"k":"const","name":c.ident.to_string(),"e":expr(&c.expr)}),
        Item::Fn(f) => json!({"k":"fn","f":func(&f.sig,&f.block,&f.attrs)}),
        Item::Use(_) => json!({"k":"nop"}),
        o => json!({"k":"item_other","raw":toks(o)}),
    }
}

fn expr_attrs(e: &Expr) -> &[Attribute] {
    match e {
        Expr::Block(x) => &x.attrs,
        Expr::Call(x) => &x.attrs,
        Expr::MethodCall(x) => &x.attrs,
        Expr::Assign(x) => &x.attrs,
        Expr::If(x) => &x.attrs,
        Expr::Match(x) => &x.attrs,
        Expr::Path(x) => &x.attrs,
        Expr::Macro(x) => &x.attrs,
        Expr::Closure(x) => &x.attrs,
        Expr::Let(x) => &x.attrs,
        Expr::Tuple(x) => &x.attrs,
        Expr::ForLoop(x) => &x.attrs,
        Expr::Unsafe(x) => &x.attrs,
        _ => &[],
    }
}

fn expr(e: &Expr) -> Value {
    let ln = line(e);
    let mut v = match e {
        Expr::Lit(l) => lit(&l.lit),
        Expr::Path(p) => {
            let q = p.qself.as_ref().map(|q| toks(&q.ty));
            json!({"k":"path","p":path_s(&p.path),"qself":q})
        }
        Expr::Paren(p) => return expr(&p.expr),
        Expr::Group(p) => return expr(&p.expr),
        Expr::Reference(r) => json!({"k":"ref","mut":r.mutability.is_some(),"e":expr(&r.expr)}),
        Expr::Unary(u) => {
            let op = match u.op {
                UnOp::Deref(_) => "*",
                UnOp::Not(_) => "!",
                UnOp::Neg(_) => "-",
                _ => "?",
            };
            json!({"k":"unary","op":op,"e":expr(&u.expr)})
        }
        Expr::Binary(b) => json!({"k":"binary","op":toks(&b.op).replace(' ',""),"l":expr(&b.left),"r":expr(&b.right)}),
        Expr::Assign(a) => json!({"k":"assign","l":expr(&a.left),"r":expr(&a.right)}),
        Expr::Cast(c) => json!({"k":"cast","e":expr(&c.expr),"ty":toks(&c.ty)}),
        Expr::Call(c) => json!({"k":"call","f":expr(&c.func),"args":c.args.iter().map(expr).collect::<Vec<_>>()}),
        Expr::MethodCall(m) => {
            let gen: Vec<Value> = m
                .turbofish
                .as_ref()
                .map(|t| t.args.iter().map(|a| Value::String(toks(a))).collect())
                .unwrap_or_default();
            json!({"k":"mcall","recv":expr(&m.receiver),"m":m.method.to_string(),"gen":gen,"args":m.args.iter().map(expr).collect::<Vec<_>>()})
        }
        Expr::Field(f) => json!({"k":"field","e":expr(&f.base),"f":toks(&f.member)}),
        Expr::Index(i) => json!({"k":"index","e":expr(&i.expr),"i":expr(&i.index)}),
        Expr::Range(r) => json!({"k":"range","lo":opt(&r.start),"hi":opt(&r.end),"incl":matches!(r.limits, RangeLimits::Closed(_))}),
        Expr::Tuple(t) => json!({"k":"tuple","es":t.elems.iter().map(expr).collect::<Vec<_>>()}),
        Expr::Array(t) => json!({"k":"array","es":t.elems.iter().map(expr).collect::<Vec<_>>()}),
        Expr::Repeat(r) => json!({"k":"repeat","e":expr(&r.expr),"n":expr(&r.len)}),
        Expr::Block(b) => {
            let mut v = block(&b.block);
            if let Some(l) = &b.label {
                v["label"] = json!(l.name.ident.to_string());
            }
            v
        }
        Expr::Unsafe(b) => {
            let mut v = block(&b.block);
            v["unsafe"] = json!(true);
            v
        }
        Expr::If(i) => json!({"k":"if","c":expr(&i.cond),"t":block(&i.then_branch),"e":i.else_branch.as_ref().map(|e|expr(&e.1)).unwrap_or(Value::Null)}),
        Expr::Let(l) => json!({"k":"letc","pat":pat(&l.pat),"e":expr(&l.expr)}),
        Expr::Match(m) => {
            let arms: Vec<Value> = m
                .arms
                .iter()
                .filter(|a| cfg_on(&a.attrs))
                .map(|a| json!({"pat":pat(&a.pat),"guard":a.guard.as_ref().map(|g|expr(&g.1)).unwrap_or(Value::Null),"body":expr(&a.body)}))
                .collect();
            json!({"k":"match","e":expr(&m.expr),"arms":arms})
        }
        Expr::Closure(c) => {
            let ps: Vec<Value> = c
                .inputs
                .iter()
                .map(|p| match p {
                    Pat::Type(t) => pat(&t.pat),
                    p => pat(p),
                })
                .collect();
            json!({"k":"closure","params":ps,"body":expr(&c.body),"mv":c.capture.is_some()})
        }
        Expr::ForLoop(f) => json!({"k":"for","pat":pat(&f.pat),"e":expr(&f.expr),"body":block(&f.body),"label":f.label.as_ref().map(|l|l.name.ident.to_string())}),
        Expr::While(w) => json!({"k":"while","c":expr(&w.cond),"body":block(&w.body),"label":w.label.as_ref().map(|l|l.name.ident.to_string())}),
        Expr::Loop(w) => json!({"k":"loop","body":block(&w.body),"label":w.label.as_ref().map(|l|l.name.ident.to_string())}),
        Expr::Return(r) => json!({"k":"return","e":opt(&r.expr)}),
        Expr::Break(r) => json!({"k":"break","e":opt(&r.expr),"label":r.label.as_ref().map(|l|l.ident.to_string())}),
        Expr::Continue(r) => json!({"k":"continue","label":r.label.as_ref().map(|l|l.ident.to_string())}),
        Expr::Try(t) => json!({"k":"try","e":expr(&t.expr)}),
        Expr::Struct(s) => {
            let fs: Vec<Value> = s.fields.iter().map(|f| json!({"n":toks(&f.member),"e":expr(&f.expr)})).collect();
            json!({"k":"struct","p":path_s(&s.path),"fields":fs,"rest":opt(&s.rest)})
        }
        Expr::Macro(m) => mac(&m.mac),
        o => json!({"k":"unsupported","raw":toks(o)}),
    };
    v["line"] = json!(ln);
    v
}

fn pat(p: &Pat) -> Value {
    match p {
        Pat::Ident(i) => json!({"k":"pid","n":i.ident.to_string(),"mut":i.mutability.is_some(),"ref":i.by_ref.is_some(),"sub":i.subpat.as_ref().map(|s|pat(&s.1)).unwrap_or(Value::Null)}),
        Pat::Wild(_) => json!({"k":"pwild"}),
        Pat::Tuple(t) => json!({"k":"ptuple","ps":t.elems.iter().map(pat).collect::<Vec<_>>()}),
        Pat::TupleStruct(t) => json!({"k":"pts","p":path_s(&t.path),"ps":t.elems.iter().map(pat).collect::<Vec<_>>()}),
        Pat::Struct(s) => json!({"k":"pstruct","p":path_s(&s.path),"fields":s.fields.iter().map(|f|json!({"n":toks(&f.member),"p":pat(&f.pat)})).collect::<Vec<_>>(),"rest":s.rest.is_some()}),
        Pat::Path(p) => json!({"k":"ppath","p":path_s(&p.path)}),
        Pat::Lit(l) => json!({"k":"plit","e":lit(&l.lit)}),
        Pat::Reference(r) => json!({"k":"pref","p":pat(&r.pat)}),
        Pat::Paren(r) => pat(&r.pat),
        Pat::Type(t) => pat(&t.pat),
        Pat::Or(o) => json!({"k":"por","ps":o.cases.iter().map(pat).collect::<Vec<_>>()}),
        Pat::Slice(s) => json!({"k":"pslice","ps":s.elems.iter().map(pat).collect::<Vec<_>>()}),
        Pat::Rest(_) => json!({"k":"prest"}),
        Pat::Range(r) => json!({"k":"prange","lo":opt(&r.start),"hi":opt(&r.end),"incl":matches!(r.limits, RangeLimits::Closed(_))}),
        o => json!({"k":"punsupported","raw":toks(o)}),
    }
}

fn func(sig: &Signature, b: &Block, _attrs: &[Attribute]) -> Value {
    let mut params = vec![];
    for i in &sig.inputs {
        match i {
            FnArg::Receiver(r) => params.push(json!({"pat":{"k":"pid","n":"self","mut":r.mutability.is_some(),"ref":false,"sub":null},"ty":toks(&r.ty),"self":true})),
            FnArg::Typed(t) => params.push(json!({"pat":pat(&t.pat),"ty":toks(&t.ty)})),
        }
    }
    json!({"name":sig.ident.to_string(),"params":params,"ret":match &sig.output {ReturnType::Default=>String::new(),ReturnType::Type(_,t)=>toks(t)},
      "generics":toks(&sig.generics),"where":sig.generics.where_clause.as_ref().map(|w| toks(w)),"body":block(b),"line":sig.span().start().line,"end":b.span().end().line})
}

fn ty_base(t: &Type) -> String {
    match t {
        Type::Path(p) => p.path.segments.last().unwrap().ident.to_string(),
        Type::Reference(r) => ty_base(&r.elem),
        Type::TraitObject(_) | Type::ImplTrait(_) => toks(t),
        o => toks(o),
    }
}

fn items(items_: &[Item], modpath: &str, file: &str, out: &mut Vec<Value>) {
    for it in items_ {
        match it {
            Item::Fn(f) => {
                if is_test_attr(&f.attrs) || !cfg_on(&f.attrs) {
                    continue;
                }
                let mut v = func(&f.sig, &f.block, &f.attrs);
                v["kind"] = json!("fn");
                v["owner"] = Value::Null;
                v["trait"] = Value::Null;
                v["mod"] = json!(modpath);
                v["file"] = json!(file);
                out.push(v);
            }
            Item::Impl(im) => {
                if is_test_attr(&im.attrs) || !cfg_on(&im.attrs) {
                    continue;
                }
                let owner = ty_base(&im.self_ty);
                let tr = im.trait_.as_ref().map(|t| t.1.segments.last().unwrap().ident.to_string());
                let trgen = im.trait_.as_ref().map(|t| toks(&t.1));
                for ii in &im.items {
                    match ii {
                        ImplItem::Fn(f) => {
                            if is_test_attr(&f.attrs) || !cfg_on(&f.attrs) {
                                continue;
                            }
                            let mut v = func(&f.sig, &f.block, &f.attrs);
                            v["kind"] = json!("fn");
                            v["owner"] = json!(owner);
                            v["trait"] = json!(tr);
                            v["traitfull"] = json!(trgen);
                            v["selfty"] = json!(toks(&im.self_ty));
                            v["mod"] = json!(modpath);
                            v["file"] = json!(file);
                            out.push(v);
                        }
                        ImplItem::Const(c) => out.push(json!({"kind":"const","name":c.ident.to_string(),"owner":owner,"e":expr(&c.expr),"ty":toks(&c.ty),"mod":modpath,"file":file})),
                        _ => {}
                    }
                }
            }
            Item::Trait(t) => {
                if is_test_attr(&t.attrs) || !cfg_on(&t.attrs) {
                    continue;
                }
                for ti in &t.items {
                    if let TraitItem::Fn(f) = ti {
                        if let Some(b) = &f.default {
                            if !cfg_on(&f.attrs) {
                                continue;
                            }
                            let mut v = func(&f.sig, b, &f.attrs);
                            v["kind"] = json!("fn");
                            v["owner"] = json!(t.ident.to_string());
                            v["trait"] = json!(t.ident.to_string());
                            v["default"] = json!(true);
                            v["mod"] = json!(modpath);
                            v["file"] = json!(file);
                            out.push(v);
                        }
                    }
                }
            }
            Item::Const(c) => {
                if is_test_attr(&c.attrs) || !cfg_on(&c.attrs) {
                    continue;
                }
                out.push(json!({"kind":"const","name":c.ident.to_string(),"owner":null,"e":expr(&c.expr),"ty":toks(&c.ty),"mod":modpath,"file":file}));
            }
            Item::Static(c) => {
                if !cfg_on(&c.attrs) {
                    continue;
                }
                out.push(json!({"kind":"const","name":c.ident.to_string(),"owner":null,"e":expr(&c.expr),"ty":toks(&c.ty),"mod":modpath,"file":file}));
            }
            Item::Struct(s) => {
                let fs: Vec<Value> = s.fields.iter().enumerate().map(|(i, f)| json!({"n":f.ident.as_ref().map(|x|x.to_string()).unwrap_or(i.to_string()),"ty":toks(&f.ty)})).collect();
                out.push(json!({"kind":"struct","name":s.ident.to_string(),"fields":fs,"tuple":matches!(s.fields, Fields::Unnamed(_)),"mod":modpath,"file":file}));
            }
            Item::Enum(s) => {
                let vs: Vec<Value> = s.variants.iter().map(|v| json!({"n":v.ident.to_string(),"fields":v.fields.iter().enumerate().map(|(i,f)| json!({"n":f.ident.as_ref().map(|x|x.to_string()).unwrap_or(i.to_string()),"ty":toks(&f.ty)})).collect::<Vec<_>>()})).collect();
                out.push(json!({"kind":"enum","name":s.ident.to_string(),"variants":vs,"mod":modpath,"file":file}));
            }
            Item::Mod(m) => {
                if is_test_attr(&m.attrs) || !cfg_on(&m.attrs) {
                    continue;
                }
                if let Some((_, its)) = &m.content {
                    items(its, &format!("{}::{}", modpath, m.ident), file, out);
                }
            }
            _ => {}
        }
    }
}

fn main() {
    let root = std::env::args().nth(1).expect("repo root");
    let mut out: Vec<Value> = vec![];
    let mut errs: Vec<Value> = vec![];
    for f in std::env::args().skip(2) {
        let src = match std::fs::read_to_string(&f) {
            Ok(s) => s,
            Err(e) => {
                errs.push(json!({"file":f,"err":e.to_string()}));
                continue;
            }
        };
        let rel = f.strip_prefix(&root).unwrap_or(&f).trim_start_matches('/').to_string();
        match parse_file(&src) {
            Ok(file) => {
                let m = rel.trim_end_matches(".rs").replace("/src/", "::").replace("crates/", "").replace('/', "::");
                items(&file.items, &m, &rel, &mut out);
            }
            Err(e) => errs.push(json!({"file":f,"err":e.to_string()})),
        }
    }
    println!("{}", serde_json::to_string(&json!({"items":out,"errors":errs})).unwrap());
}
