// futures-rs static-analysis extractor.
//
// A rustc_private driver: it is installed as RUSTC_WORKSPACE_WRAPPER on a
// probe crate that depends on every crate of the /repo workspace (compiled
// with -Zalways-encode-mir), and dumps the type-checked MIR of every function
// of those crates, instantiated under the caller's own parameter environment,
// with resolved callees, as JSON lines.  Nothing of the program is executed.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_data_structures;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_infer;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;
extern crate rustc_trait_selection;
extern crate rustc_type_ir;

use rustc_driver::Compilation;
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{CrateNum, DefId, DefIndex, LOCAL_CRATE};
use rustc_middle::mir::{self, *};
use rustc_middle::ty::{self, *};
use rustc_infer::infer::TyCtxtInferExt;
use rustc_span::Span;
use rustc_trait_selection::infer::InferCtxtExt;
use std::collections::{HashMap, VecDeque};
use std::fmt::Write as _;
use std::io::Write as _;

fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            '\r' => o.push_str("\\r"),
            c if (c as u32) < 0x20 => { let _ = write!(o, "\\u{:04x}", c as u32); }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

struct Cb;

impl rustc_driver::Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        if let Ok(out) = std::env::var("FX_OUT") {
            if tcx.crate_name(LOCAL_CRATE).as_str() == std::env::var("FX_CRATE").unwrap_or("fxprobe".into()) {
                Dump::new(tcx).run(&out);
            }
        }
        Compilation::Continue
    }
}

type EnvId = usize;

#[derive(Clone, Copy, PartialEq, Eq, Hash)]
struct Key<'tcx> { inst: DefId, args: GenericArgsRef<'tcx>, env: EnvId }

struct Dump<'tcx> {
    tcx: TyCtxt<'tcx>,
    out: String,
    envs: Vec<ParamEnv<'tcx>>,
    env_ix: HashMap<ParamEnv<'tcx>, EnvId>,
    keys: HashMap<Key<'tcx>, usize>,
    queue: VecDeque<(Key<'tcx>, usize, bool)>,
    tys: HashMap<(Ty<'tcx>, EnvId), usize>,
    ty_out: Vec<Option<String>>,
    ty_queue: VecDeque<(Ty<'tcx>, EnvId, usize)>,
    ws: HashMap<CrateNum, bool>,
    std_ok: HashMap<DefId, bool>,
    paths: HashMap<DefId, String>,
}

// Standard-library modules whose (generic, MIR-encoded) bodies are expanded.
const STD_OK: &[&str] = &[
    "core::option", "core::result", "core::task::poll", "core::pin", "core::mem::replace",
    "core::mem::take", "core::mem::swap", "core::ops::function", "core::ops::control_flow", "core::convert",
    "core::task::ready", "core::cmp::impls", "core::cmp::Ord", "core::bool",
    "core::future::into_future", "core::future::poll_fn", "core::future::ready", "core::ops::try_trait",
    "core::borrow", "core::iter::traits::collect", "core::cmp::min", "core::cmp::max", "core::tuple",
    "core::clone::Clone", "core::iter::traits::iterator::Iterator::fold",
];

impl<'tcx> Dump<'tcx> {
    fn new(tcx: TyCtxt<'tcx>) -> Self {
        let mut ws = HashMap::new();
        for &c in tcx.crates(()) {
            let n = tcx.crate_name(c);
            let n = n.as_str();
            let w = matches!(n, "futures" | "futures_channel" | "futures_core" | "futures_executor" | "futures_io"
                | "futures_sink" | "futures_task" | "futures_test" | "futures_util");
            // futures 0.1 also is called "futures": distinguish by an item only 0.4 has
            let w = if w && n == "futures" {
                tcx.extra_filename(c).len() > 0 && tcx.module_children(DefId { krate: c, index: DefIndex::from_u32(0) })
                    .iter().any(|m| m.ident.as_str() == "stream_select" || m.ident.as_str() == "never")
            } else { w };
            ws.insert(c, w);
        }
        ws.insert(LOCAL_CRATE, true);
        Dump { tcx, out: String::new(), envs: vec![], env_ix: HashMap::new(), keys: HashMap::new(), queue: VecDeque::new(),
            tys: HashMap::new(), ty_out: vec![], ty_queue: VecDeque::new(), ws, std_ok: HashMap::new(), paths: HashMap::new() }
    }

    fn path(&mut self, d: DefId) -> String {
        if let Some(p) = self.paths.get(&d) { return p.clone(); }
        let p = ty::print::with_no_trimmed_paths!(ty::print::with_no_visible_paths!(ty::print::with_crate_prefix!(self.tcx.def_path_str(d))));
        let cn = self.tcx.crate_name(d.krate);
        let p = if d.krate == LOCAL_CRATE { p.replacen("crate::", &format!("{}::", cn), 1) } else { p };
        self.paths.insert(d, p.clone());
        p
    }

    fn env_id(&mut self, pe: ParamEnv<'tcx>) -> EnvId {
        if let Some(&i) = self.env_ix.get(&pe) { return i; }
        let i = self.envs.len();
        self.envs.push(pe);
        self.env_ix.insert(pe, i);
        i
    }
    fn te(&self, e: EnvId) -> TypingEnv<'tcx> {
        TypingEnv::new(self.envs[e], ty::TypingMode::PostAnalysis)
    }

    fn expandable(&mut self, d: DefId) -> bool {
        if *self.ws.get(&d.krate).unwrap_or(&false) { return true; }
        if let Some(&b) = self.std_ok.get(&d) { return b; }
        let cn = self.tcx.crate_name(d.krate);
        let b = if cn.as_str() == "futures" {
            self.tcx.def_path(d).to_string_no_crate_verbose().starts_with("::poll::")      // futures 0.1
        } else if matches!(cn.as_str(), "core" | "std" | "alloc") {
            let p = self.tcx.def_path(d);
            let s = format!("{}{}", cn, p.to_string_no_crate_verbose());
            STD_OK.iter().any(|m| s.starts_with(m))
                || s.starts_with("core::sync::atomic") && (s.ends_with("::fetch_update") || s.ends_with("::try_update") || s.ends_with("::update"))
        } else { matches!(cn.as_str(), "pin_project_lite" | "pin_utils" | "slab" | "either") };
        self.std_ok.insert(d, b);
        b
    }

    fn key(&mut self, inst: DefId, args: GenericArgsRef<'tcx>, env: EnvId, root: bool) -> usize {
        let args = self.tcx.erase_and_anonymize_regions(args);
        // A body without parameters does not depend on the environment.
        let env = if !args.has_param() && !args.has_aliases() { self.env_id(ParamEnv::empty()) } else { env };
        let k = Key { inst, args, env };
        if let Some(&i) = self.keys.get(&k) { return i; }
        let i = self.keys.len();
        self.keys.insert(k, i);
        self.queue.push_back((k, i, root));
        i
    }

    fn ty(&mut self, t: Ty<'tcx>, env: EnvId) -> usize {
        let t = self.tcx.erase_and_anonymize_regions(t);
        let env = if !t.has_param() && !t.has_aliases() { self.env_id(ParamEnv::empty()) } else { env };
        if let Some(&i) = self.tys.get(&(t, env)) { return i; }
        let i = self.ty_out.len();
        self.tys.insert((t, env), i);
        self.ty_out.push(None);
        self.ty_queue.push_back((t, env, i));
        i
    }

    fn norm<T: TypeFoldable<TyCtxt<'tcx>> + Copy>(&self, t: ty::Unnormalized<'tcx, T>, env: EnvId) -> T {
        let raw = t.skip_norm_wip();
        match self.tcx.try_normalize_erasing_regions(self.te(env), t) { Ok(x) => x, Err(_) => raw }
    }

    fn ty_str(&self, t: Ty<'tcx>) -> String {
        ty::print::with_no_trimmed_paths!(ty::print::with_no_visible_paths!(ty::print::with_crate_prefix!(format!("{}", t))))
    }

    fn emit_ty(&mut self, t: Ty<'tcx>, env: EnvId, i: usize) {
        let tcx = self.tcx;
        let mut o = String::new();
        let _ = write!(o, "{{\"T\":{},\"s\":{}", i, esc(&self.ty_str(t)));
        let te = self.te(env);
        let nd = t.needs_drop(tcx, te);
        let _ = write!(o, ",\"nd\":{}", nd);
        if matches!(t.kind(), ty::Param(_) | ty::Alias(..)) && t.is_unpin(self.tcx, self.te(env)) { o.push_str(",\"up\":true"); }
        match t.kind() {
            TyKind::Adt(def, args) => {
                let p = self.path(def.did());
                let k = if def.is_enum() { "enum" } else if def.is_union() { "union" } else { "struct" };
                let _ = write!(o, ",\"k\":\"adt\",\"ak\":\"{}\",\"def\":{}", k, esc(&p));
                let targs: Vec<_> = args.types().collect();
                let ids: Vec<String> = targs.iter().map(|x| self.ty(*x, env).to_string()).collect();
                let _ = write!(o, ",\"args\":[{}]", ids.join(","));
                let cn = tcx.crate_name(def.did().krate);
                let exp = *self.ws.get(&def.did().krate).unwrap_or(&false)
                    || p.starts_with("core::option::") || p.starts_with("core::result::") || p.starts_with("core::task::")
                    || p.starts_with("core::pin::") || p.starts_with("core::ops::") || p.starts_with("core::mem::")
                    || p.starts_with("core::cell::") || p.starts_with("std::ops::") || p.starts_with("std::task") || p.starts_with("std::option")
                    || p.starts_with("std::result") || p.starts_with("std::pin") || p.starts_with("core::sync::atomic::Ordering")
                    || p.starts_with("core::cmp::Ordering") || p.starts_with("core::future")
                    || p.starts_with("std::sync::TryLockError") || p.starts_with("std::sync::poison::TryLockError")
                    || p.starts_with("std::io") || p.starts_with("core::iter::adapters") || p.starts_with("alloc::borrow::Cow");
                let exp = exp && !(cn.as_str() == "core" && p.contains("::pin::Unsafe"));
                if exp {
                    let mut vs = vec![];
                    for (vi, v) in def.variants().iter_enumerated() {
                        let d = if def.is_enum() { def.discriminant_for_variant(tcx, vi).val.to_string() } else { "0".into() };
                        let mut fs = vec![];
                        for f in v.fields.iter() {
                            let ft = self.norm(f.ty(tcx, args), env);
                            let id = self.ty(ft, env);
                            fs.push(format!("[{},{}]", esc(f.name.as_str()), id));
                        }
                        vs.push(format!("[{},\"{}\",[{}]]", esc(v.name.as_str()), d, fs.join(",")));
                    }
                    let _ = write!(o, ",\"v\":[{}]", vs.join(","));
                } else if def.is_enum() {
                    let mut vs = vec![];
                    for (vi, v) in def.variants().iter_enumerated() {
                        let d = def.discriminant_for_variant(tcx, vi).val.to_string();
                        vs.push(format!("[{},\"{}\"]", esc(v.name.as_str()), d));
                    }
                    let _ = write!(o, ",\"ev\":[{}]", vs.join(","));
                }
                if let Some(dt) = tcx.adt_destructor(def.did()) {
                    // resolve impl's drop for these args: the Drop impl's generics are the ADT's, in order
                    if self.expandable(def.did()) && tcx.is_mir_available(dt.did) {
                        let k = self.key(dt.did, args, env, false);
                        let _ = write!(o, ",\"drop\":{}", k);
                    } else {
                        let _ = write!(o, ",\"drop\":-1");
                    }
                }
            }
            TyKind::Ref(_, it, m) => {
                let id = self.ty(*it, env);
                let _ = write!(o, ",\"k\":\"ref\",\"m\":{},\"of\":{}", m.is_mut(), id);
            }
            TyKind::RawPtr(it, m) => {
                let id = self.ty(*it, env);
                let _ = write!(o, ",\"k\":\"ptr\",\"m\":{},\"of\":{}", m.is_mut(), id);
            }
            TyKind::Slice(it) | TyKind::Array(it, _) => {
                let id = self.ty(*it, env);
                let _ = write!(o, ",\"k\":\"slice\",\"of\":{}", id);
            }
            TyKind::Tuple(ts) => {
                let ids: Vec<String> = ts.iter().map(|x| self.ty(x, env).to_string()).collect();
                let _ = write!(o, ",\"k\":\"tuple\",\"args\":[{}]", ids.join(","));
            }
            TyKind::Closure(d, args) => {
                let ups: Vec<String> = args.as_closure().upvar_tys().iter().map(|x| self.ty(x, env).to_string()).collect();
                let _ = write!(o, ",\"k\":\"closure\",\"def\":{},\"up\":[{}]", esc(&self.path(*d)), ups.join(","));
                if tcx.is_mir_available(*d) && self.expandable(*d) {
                    let k = self.key(*d, args, env, false);
                    let _ = write!(o, ",\"body\":{}", k);
                }
            }
            TyKind::Coroutine(d, args) => {
                let ups: Vec<String> = args.as_coroutine().upvar_tys().iter().map(|x| self.ty(x, env).to_string()).collect();
                let _ = write!(o, ",\"k\":\"coroutine\",\"def\":{},\"up\":[{}]", esc(&self.path(*d)), ups.join(","));
                if tcx.is_mir_available(*d) && self.expandable(*d) {
                    let k = self.key(*d, args, env, false);
                    let _ = write!(o, ",\"body\":{}", k);
                }
            }
            TyKind::FnDef(d, args) => {
                let _ = write!(o, ",\"k\":\"fndef\",\"def\":{}", esc(&self.path(*d)));
                let args = args.skip_binder();
                let c = self.callee(*d, args, env);
                let _ = write!(o, ",\"fn\":{}", c);
            }
            TyKind::FnPtr(..) => { let _ = write!(o, ",\"k\":\"fnptr\""); }
            TyKind::Param(p) => { let _ = write!(o, ",\"k\":\"param\",\"n\":{}", esc(p.name.as_str())); }
            TyKind::Alias(..) => { let _ = write!(o, ",\"k\":\"alias\""); }
            TyKind::Dynamic(..) => { let _ = write!(o, ",\"k\":\"dyn\""); }
            TyKind::Bool => { let _ = write!(o, ",\"k\":\"bool\""); }
            TyKind::Int(_) | TyKind::Uint(_) | TyKind::Char => { let _ = write!(o, ",\"k\":\"int\""); }
            TyKind::Never => { let _ = write!(o, ",\"k\":\"never\""); }
            _ => { let _ = write!(o, ",\"k\":\"other\""); }
        }
        o.push('}');
        self.ty_out[i] = Some(o);
    }

    // description of a callee: resolved instance key if expandable, otherwise name
    fn callee(&mut self, d: DefId, args: GenericArgsRef<'tcx>, env: EnvId) -> String {
        let tcx = self.tcx;
        let te = self.te(env);
        let args = match tcx.try_normalize_erasing_regions(te, ty::Unnormalized::new_wip(args)) { Ok(a) => a, Err(_) => tcx.erase_and_anonymize_regions(args) };
        let mut o = String::new();
        let p = self.path(d);
        let _ = write!(o, "{{\"p\":{}", esc(&p));
        let tys: Vec<_> = args.types().collect();
        let ids: Vec<String> = tys.iter().map(|t| self.ty(*t, env).to_string()).collect();
        let _ = write!(o, ",\"a\":[{}]", ids.join(","));
        if let Some(tr) = tcx.trait_of_assoc(d) {
            let _ = write!(o, ",\"tr\":{},\"m\":{}", esc(&self.path(tr)), esc(tcx.item_name(d).as_str()));
        } else if let Some(imp) = tcx.trait_impl_of_assoc(d) {
            let tr = tcx.impl_trait_ref(imp).skip_binder();
            let _ = write!(o, ",\"tr\":{},\"m\":{}", esc(&self.path(tr.def_id)), esc(tcx.item_name(d).as_str()));
        } else {
            let _ = write!(o, ",\"m\":{}", esc(tcx.opt_item_name(d).map(|s| s.to_string()).unwrap_or_default().as_str()));
        }
        if matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn | DefKind::Closure) {
            match Instance::try_resolve(tcx, te, d, args) {
                Ok(Some(inst)) => {
                    match inst.def {
                        InstanceKind::Item(rd) => {
                            if rd != d {
                                let _ = write!(o, ",\"rp\":{}", esc(&self.path(rd)));
                                if let Some(imp) = tcx.impl_of_assoc(rd) {
                                    let st = tcx.type_of(imp).instantiate_identity().skip_norm_wip();
                                    let _ = write!(o, ",\"rself\":{}", esc(&self.ty_str(st)));
                                }
                            }
                            if self.expandable(rd) && tcx.is_mir_available(rd) && !matches!(tcx.def_kind(rd), DefKind::Ctor(..)) {
                                let k = self.key(rd, inst.args, env, false);
                                let _ = write!(o, ",\"k\":{}", k);
                            }
                        }
                        InstanceKind::Virtual(..) => { let _ = write!(o, ",\"virt\":true"); }
                        InstanceKind::Intrinsic(..) => { let _ = write!(o, ",\"intr\":true"); }
                        other => { let _ = write!(o, ",\"shim\":{}", esc(&format!("{:?}", other).split('(').next().unwrap().to_string()));
                            let s = format!("{:?}", other); let s: String = s.chars().take(60).collect(); let _ = write!(o, ",\"shimd\":{}", esc(&s)); }
                    }
                }
                Ok(None) => {
                    let _ = write!(o, ",\"gen\":true");
                    // extension traits (FutureExt, ...) are blanket-implemented without overrides
                    if let Some(tr) = tcx.trait_of_assoc(d) {
                        if tcx.item_name(tr).as_str().ends_with("Ext") && tcx.is_mir_available(d) && self.expandable(d) {
                            let k = self.key(d, args, env, false);
                            let _ = write!(o, ",\"k\":{}", k);
                        } else if let Some((rd, ra, env)) = self.pick_impl(tr, d, args, env) {
                            let _ = write!(o, ",\"rp\":{}", esc(&self.path(rd)));
                            let k = self.key(rd, ra, env, false);
                            let _ = write!(o, ",\"k\":{}", k);
                        }
                    }
                }
                Err(_) => { let _ = write!(o, ",\"gen\":true");
                    if let Some(tr) = tcx.trait_of_assoc(d) {
                        if let Some((rd, ra, env)) = self.pick_impl(tr, d, args, env) {
                            let _ = write!(o, ",\"rp\":{}", esc(&self.path(rd)));
                            let k = self.key(rd, ra, env, false);
                            let _ = write!(o, ",\"k\":{}", k);
                        }
                    }
                }
            }
        } else if let DefKind::Ctor(..) = tcx.def_kind(d) {
            let _ = write!(o, ",\"ctor\":true");
            let par = tcx.parent(d);
            let (adt, vi) = if tcx.def_kind(par) == DefKind::Variant {
                let e = tcx.parent(par); let ad = tcx.adt_def(e); (e, ad.variant_index_with_id(par).as_u32())
            } else { (par, 0) };
            let t = tcx.type_of(adt).instantiate(tcx, args).skip_norm_wip();
            let id = self.ty(t, env);
            let _ = write!(o, ",\"cv\":{},\"ct\":{}", vi, id);
        }
        o.push('}');
        o
    }

    fn match_impl(&mut self, tr: DefId, args: GenericArgsRef<'tcx>) -> Option<(DefId, GenericArgsRef<'tcx>, Vec<(Ty<'tcx>, Ty<'tcx>)>)> {
        let tcx = self.tcx;
        let self_ty = args.types().next()?;
        if !matches!(self_ty.kind(), ty::Adt(..)) { return None; }
        let n = tcx.generics_of(tr).count();
        let mut found = None;
        for imp in tcx.all_impls(tr) {
            if !*self.ws.get(&imp.krate).unwrap_or(&false) { continue; }
            let itr = tcx.impl_trait_ref(imp).skip_binder();
            let mut b: HashMap<u32, GenericArg<'tcx>> = HashMap::new();
            let mut eqs: Vec<(Ty<'tcx>, Ty<'tcx>)> = Vec::new();
            if !matches!(itr.self_ty().kind(), ty::Adt(..)) { continue; }
            let ok = itr.args.iter().zip(args.iter().take(n)).all(|(p, a)| unify(p, a, &mut b, &mut eqs));
            if !ok { continue; }
            if found.is_some() { return None; }
            found = Some((imp, b, eqs));
        }
        let (imp, mut b, eqs) = found?;
        let g = tcx.generics_of(imp);
        // parameters fixed only by an associated type
        for _ in 0..3 {
            for (c, _) in tcx.clauses_of(imp).clauses.iter() {
                if let ty::ClauseKind::Projection(p) = c.kind().skip_binder() {
                    if let Some(t) = p.term.as_type() {
                        if let ty::Param(q) = t.kind() {
                            if !b.contains_key(&q.index) {
                                let pa = p.projection_term.args;
                                if let Some(sub) = subst(tcx, pa, g, &b) {
                                    let did = match p.projection_term.kind { ty::AliasTermKind::ProjectionTy { def_id } => def_id, _ => continue };
                                    let nt = Ty::new_projection_from_args(tcx, ty::IsRigid::No, did, sub);
                                    b.insert(q.index, nt.into());
                                }
                            }
                        }
                    }
                }
            }
        }
        let mut bad = false;
        let ia = GenericArgs::for_item(tcx, imp, |p, _| match b.get(&p.index) {
            Some(x) => *x,
            None => match p.kind {
                ty::GenericParamDefKind::Lifetime => tcx.lifetimes.re_erased.into(),
                _ => { bad = true; tcx.types.unit.into() }
            },
        });
        if bad { return None; }
        let eqs = eqs.into_iter().map(|(p, a)| (ty::EarlyBinder::bind(tcx, p).instantiate(tcx, ia).skip_norm_wip(), a)).collect();
        Some((imp, ia, eqs))
    }

    // Where-clauses on types of the repository are replaced by what their implementation requires.
    fn expand_env(&mut self, cl: Vec<ty::Clause<'tcx>>, mut eqs: Vec<(Ty<'tcx>, Ty<'tcx>)>) -> ParamEnv<'tcx> {
        let tcx = self.tcx;
        let mut out: Vec<ty::Clause<'tcx>> = Vec::new();
        let mut work = cl;
        let mut n = 0;
        while let Some(c) = work.pop() {
            n += 1;
            if n > 200 { break; }
            let mut keep = true;
            match c.kind().skip_binder() {
                ty::ClauseKind::Trait(t) if matches!(t.trait_ref.self_ty().kind(), ty::Adt(..)) => {
                    if let Some((imp, ia, eq)) = self.match_impl(t.trait_ref.def_id, t.trait_ref.args) {
                        eqs.extend(eq);
                        for c in tcx.clauses_of(imp).instantiate(tcx, ia).clauses { work.push(c.skip_norm_wip()); }
                        keep = false;
                    }
                }
                ty::ClauseKind::Projection(p) => {
                    if matches!(p.projection_term.args.types().next().map(|t| t.kind()), Some(ty::Adt(ad, _)) if *self.ws.get(&ad.did().krate).unwrap_or(&false)) {
                        keep = false;
                        if let (Some(t), ty::AliasTermKind::ProjectionTy { def_id }) = (p.term.as_type(), p.projection_term.kind) {
                            eqs.push((Ty::new_projection_from_args(tcx, ty::IsRigid::No, def_id, p.projection_term.args), t));
                        }
                    }
                    if let Some(t) = p.term.as_type() { if let ty::Alias(..) = t.kind() { keep = false; } }
                }
                _ => {}
            }
            if keep { out.push(c); }
        }
        out.reverse();
        let ic = tcx.erase_and_anonymize_regions(tcx.mk_clauses(&out));
        let mut fin: Vec<ty::Clause<'tcx>> = Vec::new();
        for c in rustc_type_ir::elaborate::elaborate(tcx, ic.iter()) { if !fin.contains(&c) { fin.push(c); } }
        for (al, t) in eqs {
            let te = TypingEnv::new(ParamEnv::new(tcx, fin.iter().copied()), ty::TypingMode::PostAnalysis);
            let al = tcx.erase_and_anonymize_regions(al);
            let t = tcx.erase_and_anonymize_regions(t);
            let n = match tcx.try_normalize_erasing_regions(te, ty::Unnormalized::new_wip(al)) { Ok(x) => x, Err(_) => al };
            if n == t { continue; }
            if let ty::Alias(_, a) = n.kind() {
                if let ty::AliasTyKind::Projection { def_id } = a.kind {
                    if !matches!(a.args.types().next().map(|t| t.kind()), Some(ty::Param(_))) { continue; }
                    let cyc = t.walk().any(|x| matches!(x.as_type().map(|t| t.kind()), Some(ty::Alias(_, b)) if matches!(b.kind, ty::AliasTyKind::Projection { def_id: e } if e == def_id)));
                    if cyc { continue; }
                    if fin.iter().any(|c| matches!(c.kind().skip_binder(), ty::ClauseKind::Projection(p) if p.projection_term.args == a.args)) { continue; }
                    let pt = ty::AliasTerm::new_from_args(tcx, ty::AliasTermKind::ProjectionTy { def_id }, a.args);
                    let c: ty::Clause<'tcx> = ty::ClauseKind::Projection(ty::ProjectionClause { projection_term: pt, term: t.into() }).upcast(tcx);
                    if !fin.contains(&c) { fin.push(c); }
                }
            }
        }
        ParamEnv::new(tcx, fin.into_iter())
    }

    // A where-clause of the caller hides the implementation: select it structurally.
    fn pick_impl(&mut self, tr: DefId, d: DefId, args: GenericArgsRef<'tcx>, env: EnvId) -> Option<(DefId, GenericArgsRef<'tcx>, EnvId)> {
        let tcx = self.tcx;
        let n = tcx.generics_of(tr).count();
        let (imp, ia, eqs) = self.match_impl(tr, args)?;
        // environment: what the caller knows plus what the implementation requires
        let mut cl: Vec<ty::Clause<'tcx>> = self.envs[env].caller_bounds().collect();
        for c in tcx.clauses_of(imp).instantiate(tcx, ia).clauses { cl.push(c.skip_norm_wip()); }
        let pe = self.expand_env(cl, eqs);
        let env = self.env_id(pe);
        let nm = tcx.item_name(d);
        for it in tcx.associated_items(imp).in_definition_order() {
            if it.opt_name() == Some(nm) && tcx.is_mir_available(it.def_id) {
                let rest: Vec<GenericArg<'tcx>> = args.iter().skip(n).collect();
                let all: Vec<GenericArg<'tcx>> = ia.iter().chain(rest).collect();
                return Some((it.def_id, tcx.mk_args(&all), env));
            }
        }
        if tcx.is_mir_available(d) { return Some((d, args, env)); }
        None
    }

    fn span(&self, sp: Span) -> String {
        let sm = self.tcx.sess.source_map();
        let sp = sp.source_callsite();
        let lo = sm.lookup_char_pos(sp.lo());
        let f = format!("{}", lo.file.name.prefer_local_unconditionally());
        let f = f.strip_prefix("/repo/").unwrap_or(&f).to_string();
        format!("{}:{}", f, lo.line)
    }
    fn line(&self, sp: Span) -> usize {
        let sm = self.tcx.sess.source_map();
        sm.lookup_char_pos(sp.source_callsite().lo()).line
    }

    fn place(&mut self, p: &Place<'tcx>, body: &Body<'tcx>, env: EnvId) -> String {
        let mut o = format!("[{}", p.local.as_u32());
        let mut pt = mir::PlaceTy::from_ty(body.local_decls[p.local].ty);
        for e in p.projection.iter() {
            let _ = match e {
                ProjectionElem::Deref => write!(o, ",\"*\""),
                ProjectionElem::Field(f, t) => {
                    let id = self.ty(t, env);
                    // a coroutine is a struct: captures, then the state, then the saved locals of each suspension point
                    let n = match (pt.ty.kind(), pt.variant_index) {
                        (TyKind::Coroutine(_, a), Some(v)) => a.as_coroutine().upvar_tys().len() as u32 + 1 + 100 * v.as_u32() + f.as_u32(),
                        _ => f.as_u32(),
                    };
                    write!(o, ",[{},{}]", n, id)
                }
                ProjectionElem::Downcast(..) if matches!(pt.ty.kind(), TyKind::Coroutine(..)) => Ok(()),
                ProjectionElem::Index(l) => write!(o, ",[\"i\",{}]", l.as_u32()),
                ProjectionElem::ConstantIndex { offset, from_end, .. } => write!(o, ",[\"ci\",{},{}]", offset, from_end),
                ProjectionElem::Subslice { from, to, from_end } => write!(o, ",[\"sub\",{},{},{}]", from, to, from_end),
                ProjectionElem::Downcast(_, v) => write!(o, ",[\"v\",{}]", v.as_u32()),
                ProjectionElem::PhantomDeref | ProjectionElem::OpaqueCast(_) => write!(o, ",\"oc\""),
                ProjectionElem::UnwrapUnsafeBinder(_) => write!(o, ",\"oc\""),
            };
            pt = pt.projection_ty(self.tcx, e);
        }
        o.push(']');
        o
    }

    fn costate(&mut self, p: &Place<'tcx>, t: Ty<'tcx>, body: &Body<'tcx>, env: EnvId) -> String {
        let n = match t.kind() { TyKind::Coroutine(_, a) => a.as_coroutine().upvar_tys().len(), _ => 0 };
        let mut s = self.place(p, body, env);
        s.pop();
        let u = self.ty(self.tcx.types.u32, env);
        let _ = write!(s, ",[{},{}]]", n, u);
        s
    }

    fn konst(&mut self, c: &ConstOperand<'tcx>, env: EnvId) -> String {
        let tcx = self.tcx;
        let t = c.const_.ty();
        let tid = self.ty(t, env);
        if let TyKind::FnDef(d, args) = t.kind() {
            let c = self.callee(*d, args.skip_binder(), env);
            return format!("{{\"f\":{},\"t\":{}}}", c, tid);
        }
        let te = self.te(env);
        if t.is_integral() || t.is_bool() || t.is_char() {
            if let Some(b) = c.const_.try_eval_bits(tcx, te) {
                // sign-extend signed ints
                if let TyKind::Int(it) = t.kind() {
                    let w = it.bit_width().unwrap_or(64);
                    let sh = 128 - w as u32;
                    let v = ((b << sh) as i128) >> sh;
                    return format!("{{\"n\":\"{}\",\"t\":{}}}", v, tid);
                }
                return format!("{{\"n\":\"{}\",\"t\":{}}}", b, tid);
            }
        }
        let s = ty::print::with_no_trimmed_paths!(format!("{}", c.const_));
        let mut o = String::new();
        let _ = write!(o, "{{\"k\":{},\"t\":{}", esc(&s), tid);
        if let mir::Const::Unevaluated(u, _) = c.const_ {
            let _ = write!(o, ",\"u\":{}", esc(&self.path(u.def)));
            if u.promoted.is_some() {
                let _ = write!(o, ",\"prom\":{}", u.promoted.unwrap().as_u32());
                let k = self.key(u.def, u.args, env, false);
                let _ = write!(o, ",\"pk\":{}", k);
            }
        }
        if let Some(d) = c.check_static_ptr(tcx) { let _ = write!(o, ",\"st\":{}", esc(&self.path(d))); }
        // ADT constants with a single scalar: try to destructure
        if let TyKind::Adt(..) | TyKind::Tuple(..) = t.kind() {
            if let Ok(v) = c.const_.eval(tcx, te, c.span) {
                if let Some(dc) = tcx.try_destructure_mir_constant_for_user_output(v, t) {
                    let _ = write!(o, ",\"cv\":{}", dc.variant.map(|v| v.as_u32() as i64).unwrap_or(0));
                    let mut fs = vec![];
                    for (fv, ft) in dc.fields.iter() {
                        let cc = ConstOperand { span: c.span, user_ty: None, const_: mir::Const::Val(*fv, *ft) };
                        fs.push(self.konst(&cc, env));
                    }
                    let _ = write!(o, ",\"cf\":[{}]", fs.join(","));
                }
            }
        }
        o.push('}');
        o
    }

    fn op(&mut self, op: &Operand<'tcx>, body: &Body<'tcx>, env: EnvId) -> String {
        match op {
            Operand::Copy(p) => format!("{{\"c\":{}}}", self.place(p, body, env)),
            Operand::Move(p) => format!("{{\"m\":{}}}", self.place(p, body, env)),
            Operand::Constant(c) => self.konst(c, env),
            _ => "{\"rt\":true}".into(),
        }
    }

    fn rvalue(&mut self, r: &Rvalue<'tcx>, body: &Body<'tcx>, env: EnvId) -> String {
        match r {
            Rvalue::Use(o, _) => format!("[\"use\",{}]", self.op(o, body, env)),
            Rvalue::Repeat(o, _) => format!("[\"rep\",{}]", self.op(o, body, env)),
            Rvalue::Ref(_, k, p) => format!("[\"ref\",{},{}]", matches!(k, mir::BorrowKind::Mut { .. }), self.place(p, body, env)),
            Rvalue::RawPtr(k, p) => format!("[\"ref\",{},{}]", matches!(k, RawPtrKind::Mut), self.place(p, body, env)),
            Rvalue::CopyForDeref(p) => format!("[\"use\",{{\"c\":{}}}]", self.place(p, body, env)),
            Rvalue::Reborrow(_, m, p) => format!("[\"use\",{{\"{}\":{}}}]", if m.is_mut() {"m"} else {"c"}, self.place(p, body, env)),
            Rvalue::ThreadLocalRef(d) => format!("[\"tls\",{}]", esc(&self.path(*d))),
            Rvalue::Cast(k, o, t) => {
                let ks = format!("{:?}", k);
                let tid = self.ty(*t, env);
                // record fn pointers' target
                format!("[\"cast\",{},{},{}]", esc(ks.split('(').next().unwrap()), self.op(o, body, env), tid)
            }
            Rvalue::BinaryOp(b, ab) => format!("[\"bin\",\"{:?}\",{},{}]", b, self.op(&ab.0, body, env), self.op(&ab.1, body, env)),
            Rvalue::UnaryOp(u, a) => format!("[\"un\",\"{:?}\",{}]", u, self.op(a, body, env)),
            Rvalue::Discriminant(p) => {
                let t = p.ty(&body.local_decls, self.tcx).ty;
                if let TyKind::Coroutine(..) = t.kind() { return format!("[\"use\",{{\"c\":{}}}]", self.costate(p, t, body, env)); }
                let tid = self.ty(t, env);
                format!("[\"discr\",{},{}]", self.place(p, body, env), tid)
            }
            Rvalue::Aggregate(k, ops) => {
                let mut os: Vec<String> = ops.iter().map(|o| self.op(o, body, env)).collect();
                if let AggregateKind::Coroutine(..) = &**k { os.push(format!("{{\"n\":\"0\",\"t\":{}}}", self.ty(self.tcx.types.u32, env))); }
                let (ks, v, tid) = match &**k {
                    AggregateKind::Adt(d, v, a, _, af) => {
                        let t = self.tcx.type_of(*d).instantiate(self.tcx, a).skip_norm_wip();
                        let id = self.ty(t, env);
                        (if af.is_some() { "union" } else { "adt" }, v.as_u32(), id as i64)
                    }
                    AggregateKind::Tuple => ("tuple", 0, -1),
                    AggregateKind::Array(_) => ("array", 0, -1),
                    AggregateKind::Closure(d, a) => { let t = Ty::new_closure(self.tcx, *d, a); ("closure", 0, self.ty(t, env) as i64) }
                    AggregateKind::Coroutine(d, a) => { let t = Ty::new_coroutine(self.tcx, *d, a); ("coroutine", 0, self.ty(t, env) as i64) }
                    AggregateKind::RawPtr(..) => ("rawptr", 0, -1),
                    _ => ("other", 0, -1),
                };
                format!("[\"agg\",\"{}\",{},{},[{}]]", ks, v, tid, os.join(","))
            }
            _ => format!("[\"other\",{}]", esc(&format!("{:?}", r))),
        }
    }

    fn body(&mut self, body: &Body<'tcx>, env: EnvId) -> String {
        let mut o = String::new();
        let ids: Vec<String> = body.local_decls.iter().map(|l| self.ty(l.ty, env).to_string()).collect();
        let _ = write!(o, "\"argc\":{},\"locals\":[{}]", body.arg_count, ids.join(","));
        if let Some(sa) = body.spread_arg { let _ = write!(o, ",\"spread\":{}", sa.as_u32()); }
        let mut names: Vec<String> = vec![];
        for v in &body.var_debug_info {
            if let VarDebugInfoContents::Place(p) = &v.value {
                let pl = self.place(p, body, env);
                names.push(format!("[{},{}]", esc(v.name.as_str()), pl));
            }
        }
        let _ = write!(o, ",\"names\":[{}]", names.join(","));
        let _ = write!(o, ",\"bb\":[");
        for (bi, bb) in body.basic_blocks.iter_enumerated() {
            if bi.as_u32() > 0 { o.push(','); }
            let _ = write!(o, "[[");
            let mut first = true;
            for s in &bb.statements {
                let txt = match &s.kind {
                    StatementKind::Assign(b) => {
                        let (p, r) = &**b;
                        format!("[\"=\",{},{},{}]", self.place(p, body, env), self.rvalue(r, body, env), self.line(s.source_info.span))
                    }
                    StatementKind::SetDiscriminant { place, variant_index } if matches!(place.ty(&body.local_decls, self.tcx).ty.kind(), TyKind::Coroutine(..)) => {
                        let t = place.ty(&body.local_decls, self.tcx).ty;
                        format!("[\"=\",{},[\"use\",{{\"n\":\"{}\",\"t\":{}}}],{}]", self.costate(place, t, body, env), variant_index.as_u32(), self.ty(self.tcx.types.u32, env), self.line(s.source_info.span))
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => format!("[\"sd\",{},{},{}]", self.place(place, body, env), variant_index.as_u32(), self.line(s.source_info.span)),
                    StatementKind::StorageDead(l) => format!("[\"x\",{}]", l.as_u32()),
                    StatementKind::Intrinsic(i) => match &**i {
                        NonDivergingIntrinsic::Assume(op) => format!("[\"assume\",{},{}]", self.op(op, body, env), self.line(s.source_info.span)),
                        _ => "[\"memcpy\"]".into(),
                    },
                    _ => continue,
                };
                if !first { o.push(','); }
                first = false;
                o.push_str(&txt);
            }
            o.push_str("],");
            let t = bb.terminator();
            let ln = self.line(t.source_info.span);
            let uw = |u: &UnwindAction| match u { UnwindAction::Cleanup(b) => b.as_u32() as i64, UnwindAction::Continue => -1, UnwindAction::Unreachable => -2, UnwindAction::Terminate(_) => -3 };
            let txt = match &t.kind {
                TerminatorKind::Goto { target, .. } => format!("[\"goto\",{}]", target.as_u32()),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let ts: Vec<String> = targets.iter().map(|(v, b)| format!("[\"{}\",{}]", v, b.as_u32())).collect();
                    let ty = discr.ty(&body.local_decls, self.tcx);
                    let tid = self.ty(ty, env);
                    format!("[\"sw\",{},[{}],{},{},{}]", self.op(discr, body, env), ts.join(","), targets.otherwise().as_u32(), tid, ln)
                }
                TerminatorKind::UnwindResume => "[\"resume\"]".into(),
                TerminatorKind::UnwindTerminate(_) => "[\"abort\"]".into(),
                TerminatorKind::Return => format!("[\"ret\",{}]", ln),
                TerminatorKind::Unreachable => "[\"unreach\"]".into(),
                TerminatorKind::Drop { place, target, unwind, .. } => {
                    let ty = place.ty(&body.local_decls, self.tcx).ty;
                    let tid = self.ty(ty, env);
                    format!("[\"drop\",{},{},{},{},{}]", self.place(place, body, env), tid, target.as_u32(), uw(unwind), ln)
                }
                TerminatorKind::Call { func, args, destination, target, unwind, .. } => {
                    let a: Vec<String> = args.iter().map(|x| self.op(&x.node, body, env)).collect();
                    let f = self.op(func, body, env);
                    format!("[\"call\",{},[{}],{},{},{},{}]", f, a.join(","), self.place(destination, body, env),
                        target.map(|b| b.as_u32() as i64).unwrap_or(-1), uw(unwind), ln)
                }
                TerminatorKind::TailCall { func, args, .. } => {
                    let a: Vec<String> = args.iter().map(|x| self.op(&x.node, body, env)).collect();
                    let f = self.op(func, body, env);
                    format!("[\"tail\",{},[{}],{}]", f, a.join(","), ln)
                }
                TerminatorKind::Assert { cond, expected, target, unwind, .. } =>
                    format!("[\"assert\",{},{},{},{},{}]", self.op(cond, body, env), expected, target.as_u32(), uw(unwind), ln),
                TerminatorKind::Yield { .. } => "[\"yield\"]".into(),
                TerminatorKind::FalseEdge { real_target, .. } => format!("[\"goto\",{}]", real_target.as_u32()),
                TerminatorKind::FalseUnwind { real_target, .. } => format!("[\"goto\",{}]", real_target.as_u32()),
                _ => "[\"other\"]".into(),
            };
            o.push_str(&txt);
            let _ = write!(o, ",{}]", if bb.is_cleanup { 1 } else { 0 });
        }
        o.push(']');
        o
    }

    fn emit_inst(&mut self, k: Key<'tcx>, i: usize, root: bool) {
        let tcx = self.tcx;
        let d = k.inst;
        let env = k.env;
        let te = self.te(env);
        let mut o = String::new();
        let p = self.path(d);
        let _ = write!(o, "{{\"F\":{},\"p\":{},\"root\":{},\"sp\":{}", i, esc(&p), root, esc(&self.span(tcx.def_span(d))));
        let cn = tcx.crate_name(d.krate);
        let _ = write!(o, ",\"cr\":{},\"env\":{}", esc(cn.as_str()), env);
        let ids: Vec<String> = k.args.types().collect::<Vec<_>>().into_iter().map(|t| self.ty(t, env).to_string()).collect();
        let _ = write!(o, ",\"args\":[{}]", ids.join(","));
        let kind = tcx.def_kind(d);
        let _ = write!(o, ",\"kind\":\"{}\"", match kind { DefKind::Fn => "fn", DefKind::AssocFn => "assoc", DefKind::Closure => "closure", _ => "other" });
        if let Some(n) = tcx.opt_item_name(d) { let _ = write!(o, ",\"m\":{}", esc(n.as_str())); }
        let mut vis_d = d;
        if kind == DefKind::AssocFn {
            if let Some(imp) = tcx.impl_of_assoc(d) {
                if let Some(tr) = tcx.impl_opt_trait_ref(imp) {
                    let tr = tr.skip_binder();
                    let _ = write!(o, ",\"tr\":{}", esc(&self.path(tr.def_id)));
                }
                let st = tcx.type_of(imp).instantiate(tcx, k.args).skip_norm_wip();
                let st = self.norm(ty::Unnormalized::new_wip(st), env);
                let id = self.ty(st, env);
                let _ = write!(o, ",\"self\":{}", id);
                let ist = tcx.type_of(imp).instantiate_identity().skip_norm_wip();
                let _ = write!(o, ",\"iself\":{}", esc(&self.ty_str(ist)));
            } else if let Some(tr) = tcx.trait_of_assoc(d) {
                let _ = write!(o, ",\"tr\":{},\"provided\":true", esc(&self.path(tr)));
            }
        } else if kind == DefKind::Closure {
            vis_d = tcx.typeck_root_def_id(d);
        }
        if matches!(kind, DefKind::Fn | DefKind::AssocFn) {
            let v = tcx.visibility(vis_d).is_public();
            let _ = write!(o, ",\"pub\":{}", v);
            let sig = tcx.fn_sig(d).instantiate_identity().skip_norm_wip();
            let _ = write!(o, ",\"unsafe\":{}", !sig.safety().is_safe());
        }
        if kind == DefKind::Closure && tcx.is_coroutine(d) { let _ = write!(o, ",\"coroutine\":true"); }
        let body = tcx.instance_mir(InstanceKind::Item(d));
        let inst = Instance { def: InstanceKind::Item(d), args: k.args };
        let body = match inst.try_instantiate_mir_and_normalize_erasing_regions(tcx, te, ty::EarlyBinder::bind(tcx, body.clone())) {
            Ok(b) => b,
            Err(_) => { let _ = write!(o, ",\"err\":true}}"); self.out.push_str(&o); self.out.push('\n'); return; }
        };
        let b = self.body(&body, env);
        let _ = write!(o, ",{}", b);
        // promoteds
        let has_prom = matches!(kind, DefKind::Fn | DefKind::AssocFn | DefKind::Closure);
        if has_prom {
            let pr = tcx.promoted_mir(d);
            if pr.len() > 0 {
                let _ = write!(o, ",\"prom\":[");
                for (n, pb) in pr.iter().enumerate() {
                    if n > 0 { o.push(','); }
                    let pb = match inst.try_instantiate_mir_and_normalize_erasing_regions(tcx, te, ty::EarlyBinder::bind(tcx, pb.clone())) {
                        Ok(b) => b, Err(_) => { o.push_str("null"); continue; }
                    };
                    let s = self.body(&pb, env);
                    let _ = write!(o, "{{{}}}", s);
                }
                o.push(']');
            }
        }
        o.push('}');
        self.out.push_str(&o);
        self.out.push('\n');
    }

    // For Send, Sync and Unpin: does the type have the trait when its type parameters (and the associated types its
    // bounds mention) all have Send, Sync and Unpin, and which of these assumptions does that need?
    fn autos(&mut self, d: DefId, t: Ty<'tcx>) {
        let tcx = self.tcx;
        let base: Vec<ty::Clause<'tcx>> = tcx.param_env(d).caller_bounds().collect();
        let mut subj: Vec<Ty<'tcx>> = vec![];
        if let ty::Adt(_, args) = t.kind() {
            for a in args.iter() { if let Some(x) = a.as_type() { subj.push(x); } }
        }
        for c in base.iter() {
            if c.kind().no_bound_vars().is_none() { continue; }
            if let ty::ClauseKind::Trait(tr) = c.kind().skip_binder() {
                for a in tcx.associated_items(tr.trait_ref.def_id).in_definition_order() {
                    if a.is_type() && tcx.generics_of(a.def_id).own_params.is_empty() {
                        let p = Ty::new_projection_from_args(tcx, ty::IsRigid::No, a.def_id, tr.trait_ref.args);
                        if !subj.contains(&p) { subj.push(p); }
                    }
                }
            }
        }
        let pos = GenericArgs::for_item(tcx, d, |p, _| match p.kind {
            ty::GenericParamDefKind::Type { .. } => Ty::new_param(tcx, p.index, rustc_span::Symbol::intern(&format!("P{}", p.index))).into(),
            _ => tcx.mk_param_from_def(p),
        });
        let li = tcx.lang_items();
        let sy = |n: &str| rustc_span::Symbol::intern(n);
        let trs = [("Send", tcx.get_diagnostic_item(sy("Send"))), ("Sync", tcx.get_diagnostic_item(sy("Sync")).or(li.sync_trait())), ("Unpin", li.unpin_trait())];
        let mut atoms: Vec<(String, ty::Clause<'tcx>)> = vec![];
        for &x in subj.iter() {
            for (n, tr) in trs.iter() {
                if let Some(tr) = tr {
                    let c: ty::Clause<'tcx> = ty::TraitRef::new(tcx, *tr, [x]).upcast(tcx);
                    atoms.push((format!("{}: {}", ty::print::with_no_trimmed_paths!(format!("{}", ty::EarlyBinder::bind(tcx, x).instantiate(tcx, pos).skip_norm_wip())), n), c));
                }
            }
        }
        let path = self.path(d);
        let sp = self.span(tcx.def_span(d));
        for (n, tr) in trs.iter() {
            let Some(tr) = *tr else { panic!("no trait {}", n) };
            let mut ask = |skip: Option<usize>| {
                let cl: Vec<ty::Clause<'tcx>> = base.iter().copied().chain(atoms.iter().enumerate().filter(|(i, _)| Some(*i) != skip).map(|(_, a)| a.1)).collect();
                let pe = ParamEnv::new(tcx, cl.into_iter());
                let icx = tcx.infer_ctxt().build(ty::TypingMode::non_body_analysis());
                icx.type_implements_trait(tr, [t], pe).must_apply_modulo_regions()
            };
            let full = ask(None);
            let mut need: Vec<String> = vec![];
            if full {
                for i in 0..atoms.len() { if !ask(Some(i)) { need.push(esc(&atoms[i].0)); } }
            }
            let s = format!("{{\"Z\":{},\"tr\":{},\"full\":{},\"need\":[{}],\"pub\":{},\"sp\":{}}}\n", esc(&path), esc(n), full, need.join(","), tcx.visibility(d).is_public(), esc(&sp));
            self.out.push_str(&s);
        }
    }

    fn run(mut self, out: &str) {
        let tcx = self.tcx;
        let mut f = std::io::BufWriter::new(std::fs::File::create(out).unwrap());
        let crates: Vec<CrateNum> = self.ws.iter().filter(|(_, w)| **w).map(|(c, _)| *c).collect();
        let mut crates = crates;
        crates.sort_by_key(|c| tcx.crate_name(*c).to_string());
        for c in crates {
            let ids: Vec<DefId> = if c == LOCAL_CRATE {
                tcx.hir_crate_items(()).definitions().map(|d| d.to_def_id()).collect()
            } else {
                (0..tcx.num_extern_def_ids(c)).map(|i| DefId { krate: c, index: DefIndex::from_usize(i) }).collect()
            };
            for d in ids {
                let k = Some(tcx.def_kind(d));
                match k {
                    Some(DefKind::Fn) | Some(DefKind::AssocFn) => {
                        if !tcx.is_mir_available(d) { continue; }
                        if tcx.intrinsic(d).is_some() { continue; }
                        let pe = TypingEnv::post_analysis(tcx, d).param_env;
                        let e = self.env_id(pe);
                        let args = GenericArgs::identity_for_item(tcx, d);
                        self.key(d, args, e, true);
                    }
                    Some(DefKind::Struct) | Some(DefKind::Enum) | Some(DefKind::Union) => {
                        let pe = TypingEnv::post_analysis(tcx, d).param_env;
                        let e = self.env_id(pe);
                        let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                        let id = self.ty(t, e);
                        let s = format!("{{\"A\":{},\"p\":{},\"sp\":{}}}\n", id, esc(&self.path(d)), esc(&self.span(tcx.def_span(d)))); self.out.push_str(&s);
                        if c != LOCAL_CRATE { self.autos(d, t); }
                    }
                    Some(DefKind::Impl { .. }) => {
                        if let Some(tr) = tcx.impl_opt_trait_ref(d) {
                            let h = tcx.impl_trait_header(d);
                            let tr = tr.skip_binder();
                            let pe = TypingEnv::post_analysis(tcx, d).param_env;
                            let preds: Vec<String> = tcx.clauses_of(d).instantiate_identity(tcx).clauses.iter().map(|p| esc(&ty::print::with_no_trimmed_paths!(format!("{}", p.skip_norm_wip())))).collect();
                            let _ = pe;
                            let st = ty::print::with_no_trimmed_paths!(format!("{}", tr.self_ty()));
                            let s = format!("{{\"I\":{},\"tr\":{},\"self\":{},\"neg\":{},\"unsafe\":{},\"preds\":[{}],\"sp\":{}}}\n",
                                esc(&self.path(d)), esc(&self.path(tr.def_id)), esc(&st), h.polarity == ImplPolarity::Negative, !h.safety.is_safe(), preds.join(","), esc(&self.span(tcx.def_span(d))));
                            self.out.push_str(&s);
                        }
                    }
                    _ => {}
                }
            }
        }
        loop {
            if let Some((k, i, r)) = self.queue.pop_front() {
                self.emit_inst(k, i, r);
            } else if let Some((t, e, i)) = self.ty_queue.pop_front() {
                self.emit_ty(t, e, i);
            } else { break; }
            if self.out.len() > 1 << 20 { f.write_all(self.out.as_bytes()).unwrap(); self.out.clear(); }
        }
        f.write_all(self.out.as_bytes()).unwrap();
        for t in self.ty_out.iter() { if let Some(t) = t { f.write_all(t.as_bytes()).unwrap(); f.write_all(b"\n").unwrap(); } }
        f.write_all(b"{\"END\":true}\n").unwrap();
        f.flush().unwrap();
        let _: Option<HashMap<Promoted, ()>> = None;
    }
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER: argv[1] is the real rustc
    if args.len() > 1 && args[1].ends_with("rustc") { args.remove(1); }
    rustc_driver::compiler_entrypoint(&args, &mut Cb);
}

fn unify<'tcx>(p: GenericArg<'tcx>, a: GenericArg<'tcx>, b: &mut HashMap<u32, GenericArg<'tcx>>, eqs: &mut Vec<(Ty<'tcx>, Ty<'tcx>)>) -> bool {
    match (p.kind(), a.kind()) {
        (ty::GenericArgKind::Type(p), ty::GenericArgKind::Type(a)) => match (p.kind(), a.kind()) {
            (ty::Param(q), _) => match b.get(&q.index) {
                Some(x) => *x == GenericArg::from(a),
                None => { b.insert(q.index, a.into()); true }
            },
            (ty::Adt(d1, a1), ty::Adt(d2, a2)) => d1.did() == d2.did() && a1.iter().zip(a2.iter()).all(|(x, y)| unify(x, y, b, eqs)),
            (ty::Ref(_, t1, m1), ty::Ref(_, t2, m2)) => m1 == m2 && unify((*t1).into(), (*t2).into(), b, eqs),
            (ty::Tuple(t1), ty::Tuple(t2)) => t1.len() == t2.len() && t1.iter().zip(t2.iter()).all(|(x, y)| unify(x.into(), y.into(), b, eqs)),
            (ty::Alias(..), _) => { eqs.push((p, a)); true }
            (_, ty::Alias(..)) => true,
            _ => p == a,
        },
        (ty::GenericArgKind::Lifetime(_), ty::GenericArgKind::Lifetime(_)) => true,
        (x, y) => x == y,
    }
}

fn subst<'tcx>(tcx: TyCtxt<'tcx>, args: GenericArgsRef<'tcx>, g: &'tcx ty::Generics, b: &HashMap<u32, GenericArg<'tcx>>) -> Option<GenericArgsRef<'tcx>> {
    // every parameter mentioned must be bound
    struct M<'a, 'tcx>(&'a HashMap<u32, GenericArg<'tcx>>, bool);
    impl<'a, 'tcx> TypeVisitor<TyCtxt<'tcx>> for M<'a, 'tcx> {
        type Result = ();
        fn visit_ty(&mut self, t: Ty<'tcx>) {
            if let ty::Param(q) = t.kind() { if !self.0.contains_key(&q.index) { self.1 = true; } }
            t.super_visit_with(self)
        }
    }
    let mut m = M(b, false);
    args.visit_with(&mut m);
    if m.1 { return None; }
    let full: Vec<GenericArg<'tcx>> = (0..g.count() as u32).map(|i| match b.get(&i) { Some(x) => *x, None => {
        let p = g.param_at(i as usize, tcx);
        match p.kind { ty::GenericParamDefKind::Lifetime => tcx.lifetimes.re_erased.into(), _ => tcx.types.unit.into() } } }).collect();
    Some(ty::EarlyBinder::bind(tcx, args).instantiate(tcx, &full[..]).skip_norm_wip())
}
