use crate::json::{s, J};
use rustc_hir::def::{CtorKind, DefKind};
use rustc_hir::def_id::DefId;
use rustc_middle::mir::{self, *};
use rustc_middle::ty::{self, EarlyBinder, GenericArgKind, GenericArgsRef, Instance, InstanceKind, Ty, TyCtxt, TypingEnv};
use rustc_middle::ty::print::{with_no_trimmed_paths, with_no_visible_paths, with_resolve_crate_name};
use rustc_span::Span;
use std::collections::{HashMap, HashSet, VecDeque};

#[derive(Clone, Copy, PartialEq, Eq, Hash)]
struct Item<'tcx> {
    inst: Instance<'tcx>,
    promoted: Option<Promoted>,
    root: DefId, // whose parameter environment the args live in
}

struct D<'tcx> {
    tcx: TyCtxt<'tcx>,
    tys: Vec<J>,
    tymap: HashMap<Ty<'tcx>, usize>,
    queue: VecDeque<Item<'tcx>>,
    seen: HashMap<Item<'tcx>, String>,
    keys: HashSet<String>,
    allow: Vec<String>,
    deny: Vec<String>,
}

pub fn path(tcx: TyCtxt<'_>, d: DefId) -> String {
    with_resolve_crate_name!(with_no_visible_paths!(with_no_trimmed_paths!(tcx.def_path_str(d))))
}
fn tystr(t: Ty<'_>) -> String {
    with_resolve_crate_name!(with_no_visible_paths!(with_no_trimmed_paths!(t.to_string())))
}

impl<'tcx> D<'tcx> {
    fn span(&self, sp: Span) -> J {
        let sm = self.tcx.sess.source_map();
        let sp = sp.source_callsite();
        let lo = sm.lookup_char_pos(sp.lo());
        let f = lo.file.name.prefer_local_unconditionally().to_string();
        s(format!("{}:{}", f, lo.line))
    }
    fn span_exp(&self, sp: Span) -> J {
        // location inside the (possibly macro) definition
        let sm = self.tcx.sess.source_map();
        let lo = sm.lookup_char_pos(sp.lo());
        let f = lo.file.name.prefer_local_unconditionally().to_string();
        s(format!("{}:{}", f, lo.line))
    }

    fn args(&mut self, a: GenericArgsRef<'tcx>) -> J {
        let mut v = vec![];
        for x in a.iter() {
            match x.kind() {
                GenericArgKind::Lifetime(_) => {}
                GenericArgKind::Type(t) => v.push(J::O(vec![("t", self.ty(t))])),
                GenericArgKind::Const(c) => v.push(J::O(vec![("c", self.tyconst(c))])),
                #[allow(unreachable_patterns)]
                _ => {}
            }
        }
        J::A(v)
    }

    fn tyconst(&mut self, c: ty::Const<'tcx>) -> J {
        match c.kind() {
            ty::ConstKind::Value(v) => {
                if let Some(sc) = v.try_to_leaf() {
                    return J::O(vec![("k", s("int")), ("v", s(sc.to_bits_unchecked().to_string()))]);
                }
                J::O(vec![("k", s("other")), ("s", s(c.to_string()))])
            }
            ty::ConstKind::Param(p) => J::O(vec![("k", s("param")), ("n", s(p.name.to_string()))]),
            _ => J::O(vec![("k", s("other")), ("s", s(c.to_string()))]),
        }
    }

    fn ty(&mut self, t: Ty<'tcx>) -> J {
        J::I(self.tyi(t) as i128)
    }

    fn tyi(&mut self, t: Ty<'tcx>) -> usize {
        if let Some(&i) = self.tymap.get(&t) {
            return i;
        }
        let i = self.tys.len();
        self.tys.push(J::Null);
        self.tymap.insert(t, i);
        let tcx = self.tcx;
        let mut o: Vec<(&'static str, J)> = vec![("s", s(tystr(t)))];
        let mut k = |x: &str| o.push(("k", s(x)));
        match t.kind() {
            ty::Bool => k("bool"),
            ty::Char => k("char"),
            ty::Int(x) => {
                k("int");
                o.push(("bits", J::I(x.bit_width().unwrap_or(64) as i128)));
            }
            ty::Uint(x) => {
                k("uint");
                o.push(("bits", J::I(x.bit_width().unwrap_or(64) as i128)));
            }
            ty::Float(x) => {
                k("float");
                o.push(("bits", J::I(x.bit_width() as i128)));
            }
            ty::Str => k("str"),
            ty::Never => k("never"),
            ty::Adt(def, args) => {
                k("adt");
                o.push(("def", s(path(tcx, def.did()))));
                o.push(("adt", s(if def.is_enum() { "enum" } else if def.is_union() { "union" } else { "struct" })));
                let a = self.args(args);
                o.push(("args", a));
                // recurse into fields of structs and enums
                let mut vs = vec![];
                for (vi, v) in def.variants().iter_enumerated() {
                    let mut fs = vec![];
                    for f in v.fields.iter() {
                        let fty = f.ty(tcx, args).skip_norm_wip();
                        let fty = tcx
                            .try_normalize_erasing_regions(TypingEnv::fully_monomorphized(), ty::Unnormalized::new_wip(fty))
                            .unwrap_or(fty);
                        fs.push(J::O(vec![("n", s(f.name.to_string())), ("t", self.ty(fty)), ("pub", J::B(f.vis.is_public()))]));
                    }
                    let d = if def.is_enum() {
                        J::S(def.discriminant_for_variant(tcx, vi).val.to_string())
                    } else {
                        s("0")
                    };
                    vs.push(J::O(vec![("n", s(v.name.to_string())), ("d", d), ("f", J::A(fs))]));
                }
                o.push(("v", J::A(vs)));
                o.push(("local", J::B(def.did().is_local())));
            }
            ty::Foreign(_) => k("foreign"),
            ty::Array(e, n) => {
                k("array");
                let e = self.ty(*e);
                o.push(("e", e));
                let n = self.tyconst(*n);
                o.push(("n", n));
            }
            ty::Slice(e) => {
                k("slice");
                let e = self.ty(*e);
                o.push(("e", e));
            }
            ty::RawPtr(e, m) => {
                k("ptr");
                o.push(("m", J::B(m.is_mut())));
                let e = self.ty(*e);
                o.push(("e", e));
            }
            ty::Ref(_, e, m) => {
                k("ref");
                o.push(("m", J::B(m.is_mut())));
                let e = self.ty(*e);
                o.push(("e", e));
            }
            ty::FnDef(d, args) => {
                k("fndef");
                o.push(("def", s(path(tcx, *d))));
                let args = args.no_bound_vars().unwrap_or_else(|| args.skip_binder());
                let a = self.args(args);
                o.push(("args", a));
            }
            ty::FnPtr(..) => k("fnptr"),
            ty::Dynamic(..) => k("dyn"),
            ty::Closure(d, args) => {
                k("closure");
                o.push(("def", s(path(tcx, *d))));
                let ups: Vec<Ty<'tcx>> = args.as_closure().upvar_tys().iter().collect();
                let u = ups.into_iter().map(|u| self.ty(u)).collect();
                o.push(("up", J::A(u)));
            }
            ty::Tuple(ts) => {
                k("tuple");
                let v = ts.iter().map(|x| self.ty(x)).collect();
                o.push(("e", J::A(v)));
            }
            ty::Alias(..) => k("alias"),
            ty::Param(p) => {
                k("param");
                o.push(("n", s(p.name.to_string())));
            }
            _ => k("other"),
        }
        self.tys[i] = J::O(o);
        i
    }

    fn argstr(&self, a: GenericArgsRef<'tcx>) -> String {
        let mut v = vec![];
        for x in a.iter() {
            match x.kind() {
                GenericArgKind::Lifetime(_) => {}
                GenericArgKind::Type(t) => v.push(tystr(t)),
                GenericArgKind::Const(c) => v.push(c.to_string()),
                #[allow(unreachable_patterns)]
                _ => {}
            }
        }
        v.join(",")
    }

    fn enqueue(&mut self, it: Item<'tcx>) -> String {
        use rustc_middle::ty::TypeVisitableExt;
        let it = if it.inst.args.has_param() { it } else { Item { root: it.inst.def_id(), ..it } };
        if let Some(k) = self.seen.get(&it) {
            return k.clone();
        }
        let d = it.inst.def_id();
        let mut k = format!("{}", path(self.tcx, d));
        let a = self.argstr(it.inst.args);
        if !a.is_empty() {
            k.push_str(&format!("[{}]", a));
        }
        match it.inst.def {
            InstanceKind::Item(_) => {}
            InstanceKind::Shim(ty::ShimKind::Clone(_, t)) => k.push_str(&format!("#clone {}", tystr(t))),
            other => k.push_str(&format!("#{}", format!("{:?}", other).split('(').take(2).collect::<Vec<_>>().join("."))),
        }
        if let Some(p) = it.promoted {
            k.push_str(&format!("#promoted{}", p.as_usize()));
        }
        if it.inst.args.has_param() {
            k.push_str(&format!("@{}", path(self.tcx, it.root)));
        }
        let mut k2 = k.clone();
        let mut n = 1;
        while self.keys.contains(&k2) {
            n += 1;
            k2 = format!("{}~{}", k, n);
        }
        self.keys.insert(k2.clone());
        self.seen.insert(it, k2.clone());
        self.queue.push_back(it);
        k2
    }

    fn allowed(&self, d: DefId) -> bool {
        if d.is_local() {
            return true;
        }
        let p = path(self.tcx, d);
        if self.deny.iter().any(|x| p.contains(x.as_str())) {
            return false;
        }
        self.allow.iter().any(|a| p.contains(a.as_str()))
    }

    fn tenv(&self, root: DefId) -> TypingEnv<'tcx> {
        TypingEnv::post_analysis(self.tcx, root)
    }

    fn fnref(&mut self, d: DefId, args: GenericArgsRef<'tcx>, root: DefId) -> J {
        let tcx = self.tcx;
        let mut o: Vec<(&'static str, J)> = vec![("k", s("fn")), ("def", s(path(tcx, d)))];
        let a = self.args(args);
        o.push(("args", a));
        o.push(("name", s(tcx.opt_item_name(d).map(|x| x.to_string()).unwrap_or_default())));
        if let Some(tr) = tcx.trait_of_assoc(d) {
            o.push(("trait", s(path(tcx, tr))));
        }
        if matches!(tcx.def_kind(d), DefKind::Ctor(..)) {
            o.push(("ctor", J::B(true)));
            // parent variant / struct
            let p = tcx.parent(d);
            o.push(("ctorof", s(path(tcx, p))));
            if tcx.def_kind(p) == DefKind::Variant {
                let e = tcx.parent(p);
                let vi = tcx.adt_def(e).variant_index_with_id(p);
                o.push(("variant", J::I(vi.as_usize() as i128)));
            }
        }
        if let Some(tr) = tcx.trait_of_assoc(d) {
            let trp = path(tcx, tr);
            let nm = tcx.item_name(d).to_string();
            let it_ty = if trp.ends_with("FromIterator") && nm == "from_iter" {
                Some(args.type_at(2))
            } else if trp.ends_with("Extend") && nm == "extend" {
                Some(args.type_at(2))
            } else {
                None
            };
            if let Some(it_ty) = it_ty {
                self.iter_refs(&mut o, it_ty, root);
            }
            // internal iteration on a sized iterator: how to step it
            if trp.ends_with("::Iterator") && nm != "next" {
                self.next_ref(&mut o, args.type_at(0), root);
            }
        }
        let unsafe_ = if tcx.def_kind(d).is_fn_like() {
            tcx.fn_sig(d).skip_binder().safety().is_unsafe()
        } else {
            false
        };
        if unsafe_ {
            o.push(("unsafe", J::B(true)));
        }
        let env = self.tenv(root);
        match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| Instance::try_resolve(tcx, env, d, args))) {
            Ok(Ok(Some(inst))) => {
                let id = inst.def_id();
                o.push(("rdef", s(path(tcx, id))));
                let ra = self.args(inst.args);
                o.push(("rargs", ra));
                let kind = match inst.def {
                    InstanceKind::Item(_) => "item",
                    InstanceKind::Intrinsic(_) => "intrinsic",
                    InstanceKind::Virtual(..) => "virtual",
                    InstanceKind::Shim(ty::ShimKind::DropGlue(..)) => "dropglue",
                    InstanceKind::Shim(ty::ShimKind::ClosureOnce { .. }) => "closureonce",
                    InstanceKind::Shim(ty::ShimKind::FnPtr(..)) => "fnptrshim",
                    InstanceKind::Shim(ty::ShimKind::Clone(..)) => "cloneshim",
                    _ => "othershim",
                };
                o.push(("rk", s(kind)));
                let body_ok = match inst.def {
                    InstanceKind::Item(id) => {
                        self.allowed(id)
                            && tcx.is_mir_available(id)
                            && !matches!(tcx.def_kind(id), DefKind::Ctor(_, CtorKind::Const))
                    }
                    InstanceKind::Shim(ty::ShimKind::ClosureOnce { .. }) => true,
                    InstanceKind::Shim(ty::ShimKind::FnPtr(..)) => true,
                    _ => false,
                };
                if body_ok {
                    let key = self.enqueue(Item { inst, promoted: None, root });
                    o.push(("key", s(key)));
                }
                // default trait-method body, used as the reference body of overridden iterator methods
                if let (Some(tr), InstanceKind::Item(id)) = (tcx.trait_of_assoc(d), inst.def) {
                    let trp = path(tcx, tr);
                    let rp = path(tcx, id);
                    let raw = rp.contains("core::slice::iter::Iter") || rp.contains("::into_iter::IntoIter") || rp.contains("core::array::iter::");
                    if (!body_ok || raw) && id != d && trp.ends_with("Iterator") && tcx.is_mir_available(d) {
                        let di = Instance { def: InstanceKind::Item(d), args };
                        let key = self.enqueue(Item { inst: di, promoted: None, root });
                        o.push(("dkey", s(key)));
                    }
                }
            }
            _ => {
                o.push(("rk", s("unresolved")));
                // body of a provided method, should the contract want it
                if tcx.trait_of_assoc(d).is_some() && tcx.is_mir_available(d) && self.allowed(d) {
                    let di = Instance { def: InstanceKind::Item(d), args };
                    let key = self.enqueue(Item { inst: di, promoted: None, root });
                    o.push(("dkey", s(key)));
                }
            }
        }
        J::O(o)
    }

    fn next_ref(&mut self, o: &mut Vec<(&'static str, J)>, it: Ty<'tcx>, root: DefId) {
        let tcx = self.tcx;
        let Some(itr) = tcx.get_diagnostic_item(rustc_span::sym::Iterator) else { return };
        let next = tcx
            .associated_items(itr)
            .in_definition_order()
            .find(|a| a.opt_name().map(|n| n.to_string() == "next").unwrap_or(false));
        if let Some(n) = next {
            let a = tcx.mk_args(&[it.into()]);
            let j = self.fnref(n.def_id, a, root);
            o.push(("next", j));
            let t = self.ty(it);
            o.push(("iterty", t));
            let out = tcx.fn_sig(n.def_id).instantiate(tcx, a).map(|x| x.skip_binder().output());
            let env = self.tenv(root);
            if let Ok(rt) = tcx.try_normalize_erasing_regions(env, out) {
                let t = self.ty(rt);
                o.push(("rett", t));
            }
        }
    }
    fn iter_refs(&mut self, o: &mut Vec<(&'static str, J)>, it: Ty<'tcx>, root: DefId) {
        let tcx = self.tcx;
        let Some(ii) = tcx.get_diagnostic_item(rustc_span::sym::IntoIterator) else { return };
        let mut into = None;
        let mut assoc = None;
        for a in tcx.associated_items(ii).in_definition_order() {
            match a.opt_name().map(|n| n.to_string()).as_deref() {
                Some("into_iter") => into = Some(a.def_id),
                Some("IntoIter") => assoc = Some(a.def_id),
                _ => {}
            }
        }
        let a = tcx.mk_args(&[it.into()]);
        if let (Some(f), Some(p)) = (into, assoc) {
            let j = self.fnref(f, a, root);
            o.push(("into_iter", j));
            let proj = Ty::new_projection_from_args(tcx, ty::IsRigid::No, p, a);
            let env = self.tenv(root);
            if let Ok(n) = tcx.try_normalize_erasing_regions(env, ty::Unnormalized::new_wip(proj)) {
                self.next_ref(o, n, root);
            }
        }
    }

    /// scalars and references that sit in constant memory
    fn constmem(&mut self, id: interpret::AllocId, at: usize, t: Ty<'tcx>, root: DefId, depth: usize) -> Option<J> {
        let tcx = self.tcx;
        let interpret::GlobalAlloc::Memory(a) = tcx.global_alloc(id) else { return None };
        let a = a.inner();
        let size = a.size().bytes() as usize;
        let word = |at: usize, n: usize| -> Option<u128> {
            if at + n > size {
                return None;
            }
            let raw = a.inspect_with_uninit_and_ptr_outside_interpreter(at..at + n);
            Some(raw.iter().rev().fold(0u128, |x, b| (x << 8) | *b as u128))
        };
        let width = match t.kind() {
            ty::Uint(u) => u.bit_width().unwrap_or(64) / 8,
            ty::Int(u) => u.bit_width().unwrap_or(64) / 8,
            ty::Bool => 1,
            ty::Char => 4,
            ty::Float(f) => f.bit_width() / 8,
            _ => 0,
        };
        if width > 0 {
            let x = word(at, width as usize)?;
            let val = if let ty::Int(_) = t.kind() {
                let sh = 128 - width * 8;
                (((x << sh) as i128) >> sh).to_string()
            } else {
                x.to_string()
            };
            let tj = self.ty(t);
            return Some(J::O(vec![("k", s("int")), ("v", s(val)), ("t", tj)]));
        }
        if let ty::Ref(_, inner, _) = t.kind() {
            if depth >= 6 {
                return None;
            }
            let prov = a.provenance().get_ptr(rustc_abi::Size::from_bytes(at as u64))?;
            let off = word(at, 8)? as usize;
            let tj = self.ty(t);
            match inner.kind() {
                ty::Str => {
                    let n = word(at + 8, 8)? as usize;
                    let interpret::GlobalAlloc::Memory(b) = tcx.global_alloc(prov.alloc_id()) else { return None };
                    let raw = b.inner().inspect_with_uninit_and_ptr_outside_interpreter(off..off + n);
                    return Some(J::O(vec![("k", s("str")), ("v", s(String::from_utf8_lossy(raw).to_string())), ("t", tj)]));
                }
                ty::Slice(e) => {
                    let n = word(at + 8, 8)?;
                    let arr = Ty::new_array(tcx, *e, n as u64);
                    let v = ConstValue::Indirect { alloc_id: prov.alloc_id(), offset: rustc_abi::Size::from_bytes(off as u64) };
                    let j = self.constval(v, arr, root, depth + 1);
                    return Some(J::O(vec![("k", s("ref")), ("v", j), ("t", tj)]));
                }
                _ => {
                    let v = ConstValue::Indirect { alloc_id: prov.alloc_id(), offset: rustc_abi::Size::from_bytes(off as u64) };
                    let j = self.constval(v, *inner, root, depth + 1);
                    return Some(J::O(vec![("k", s("ref")), ("v", j), ("t", tj)]));
                }
            }
        }
        None
    }

    fn constval(&mut self, v: ConstValue, t: Ty<'tcx>, root: DefId, depth: usize) -> J {
        let tcx = self.tcx;
        let tj = self.ty(t);
        if let ty::FnDef(d, args) = t.kind() {
            let args = args.no_bound_vars().unwrap_or_else(|| args.skip_binder());
            return self.fnref(*d, args, root);
        }
        if let ConstValue::Indirect { alloc_id, offset } = v {
            if let Some(j) = self.constmem(alloc_id, offset.bytes() as usize, t, root, depth) {
                return j;
            }
        }
        match (v, t.kind()) {
            (ConstValue::Scalar(interpret::Scalar::Int(i)), ty::Int(_)) => {
                let sz = i.size();
                return J::O(vec![("k", s("int")), ("v", s(i.to_int(sz).to_string())), ("t", tj)]);
            }
            (ConstValue::Scalar(interpret::Scalar::Int(i)), ty::Uint(_) | ty::Bool | ty::Char | ty::Float(_)) => {
                let sz = i.size();
                return J::O(vec![("k", s("int")), ("v", s(i.to_uint(sz).to_string())), ("t", tj)]);
            }
            (_, ty::Ref(_, inner, _)) if depth < 4 => {
                // &str / &[u8] literal
                if let ConstValue::Slice { .. } = v {
                    if let Some(b) = v.try_get_slice_bytes_for_diagnostics(tcx) {
                        if inner.is_str() {
                            return J::O(vec![("k", s("str")), ("v", s(String::from_utf8_lossy(b).to_string())), ("t", tj)]);
                        }
                        return J::O(vec![
                            ("k", s("bytes")),
                            ("v", J::A(b.iter().map(|x| J::I(*x as i128)).collect())),
                            ("t", tj),
                        ]);
                    }
                }
                if let ConstValue::Scalar(interpret::Scalar::Ptr(p, _)) = v {
                    let (prov, off) = p.into_raw_parts();
                    if let interpret::GlobalAlloc::Memory(_) = tcx.global_alloc(prov.alloc_id()) {
                        let inner_v = ConstValue::Indirect { alloc_id: prov.alloc_id(), offset: off };
                        let j = self.constval(inner_v, *inner, root, depth + 1);
                        return J::O(vec![("k", s("ref")), ("v", j), ("t", tj)]);
                    }
                }
                return J::O(vec![("k", s("opaque")), ("s", s("ref")), ("t", tj)]);
            }
            (ConstValue::Indirect { alloc_id, offset }, ty::Array(e, n)) if depth < 4 => {
                if let (Some(n), interpret::GlobalAlloc::Memory(a)) = (n.try_to_target_usize(tcx), tcx.global_alloc(alloc_id)) {
                    let bits = match e.kind() {
                        ty::Uint(u) => u.bit_width().unwrap_or(64) / 8,
                        ty::Int(u) => u.bit_width().unwrap_or(64) / 8,
                        ty::Bool => 1,
                        _ => 0,
                    };
                    if bits > 0 && n <= 4096 {
                        let start = offset.bytes() as usize;
                        let len = (n * bits) as usize;
                        let raw = a.inner().inspect_with_uninit_and_ptr_outside_interpreter(start..start + len);
                        let mut vals = vec![];
                        for ch in raw.chunks(bits as usize) {
                            let mut x: u128 = 0;
                            for (i, b) in ch.iter().enumerate() {
                                x |= (*b as u128) << (8 * i);
                            }
                            let val = if let ty::Int(_) = e.kind() {
                                let sh = 128 - bits * 8;
                                ((x << sh) as i128) >> sh
                            } else {
                                x as i128
                            };
                            vals.push(J::I(val));
                        }
                        return J::O(vec![("k", s("array")), ("v", J::A(vals)), ("t", tj)]);
                    }
                }
            }
            _ => {}
        }
        // `None` of an option over a never-null pointer, in generic code
        if let (ConstValue::Scalar(interpret::Scalar::Int(i)), ty::Adt(d, a)) = (v, t.kind()) {
            if path(tcx, d.did()) == "core::option::Option" && i.to_uint(i.size()) == 0 {
                let never_null = match a.type_at(0).kind() {
                    ty::Ref(..) | ty::FnPtr(..) => true,
                    ty::Adt(b, _) => b.is_box(),
                    _ => false,
                };
                if never_null {
                    return J::O(vec![("k", s("agg")), ("variant", J::I(0)), ("f", J::A(vec![])), ("t", tj)]);
                }
            }
        }
        if matches!(t.kind(), ty::Adt(..) | ty::Tuple(..) | ty::Array(..)) && depth < 6 {
            use rustc_middle::ty::TypeVisitableExt;
            if !t.has_param() {
                if let Some(d) = tcx.try_destructure_mir_constant_for_user_output(v, t) {
                    let mut fs = vec![];
                    for (fv, ft) in d.fields {
                        fs.push(self.constval(*fv, *ft, root, depth + 1));
                    }
                    return J::O(vec![
                        ("k", s("agg")),
                        ("variant", d.variant.map(|x| J::I(x.as_usize() as i128)).unwrap_or(J::Null)),
                        ("f", J::A(fs)),
                        ("t", tj),
                    ]);
                }
            }
        }
        match v {
            ConstValue::ZeroSized => J::O(vec![("k", s("zst")), ("t", tj)]),
            _ => J::O(vec![("k", s("opaque")), ("s", s(format!("{:?}", v))), ("t", tj)]),
        }
    }

    fn constant(&mut self, c: &mir::Const<'tcx>, root: DefId) -> J {
        let tcx = self.tcx;
        let t = c.ty();
        if let ty::FnDef(d, args) = t.kind() {
            let args = args.no_bound_vars().unwrap_or_else(|| args.skip_binder());
            return self.fnref(*d, args, root);
        }
        let env = self.tenv(root);
        use rustc_middle::ty::TypeVisitableExt;
        match c {
            mir::Const::Val(v, t) => self.constval(*v, *t, root, 0),
            mir::Const::Ty(t, k) => {
                if let ty::ConstKind::Param(p) = k.kind() {
                    let tj = self.ty(*t);
                    return J::O(vec![("k", s("cparam")), ("n", s(p.name.to_string())), ("t", tj)]);
                }
                if !c.has_param() {
                    if let Ok(v) = c.eval(tcx, env, rustc_span::DUMMY_SP) {
                        return self.constval(v, *t, root, 0);
                    }
                }
                let tj = self.ty(*t);
                J::O(vec![("k", s("opaque")), ("s", s(format!("{:?}", k))), ("t", tj)])
            }
            mir::Const::Unevaluated(u, t) => {
                let have = match u.promoted {
                    Some(p) => p.index() < tcx.promoted_mir(u.def).len(),
                    None => true,
                };
                if !c.has_param() && have {
                    let ev = match u.promoted {
                        Some(p) => {
                            let inst = Instance { def: InstanceKind::Item(u.def), args: u.args };
                            tcx.const_eval_global_id(
                                env,
                                mir::interpret::GlobalId { instance: inst, promoted: Some(p) },
                                rustc_span::DUMMY_SP,
                            )
                        }
                        None => c.eval(tcx, env, rustc_span::DUMMY_SP),
                    };
                    if let Ok(v) = ev {
                        let j = self.constval(v, *t, root, 0);
                        if let J::O(o) = &j {
                            if !(matches!(&o[0].1, J::S(x) if x == "opaque")) || u.promoted.is_none() {
                                return j;
                            }
                        }
                    }
                }
                let tj = self.ty(*t);
                let aj = self.args(u.args);
                let mut o: Vec<(&'static str, J)> = vec![
                    ("k", s("uneval")),
                    ("def", s(path(tcx, u.def))),
                    ("args", aj),
                    ("t", tj),
                ];
                o.push(("name", s(tcx.opt_item_name(u.def).map(|x| x.to_string()).unwrap_or_default())));
                if let Some(tr) = tcx.trait_of_assoc(u.def) {
                    o.push(("trait", s(path(tcx, tr))));
                }
                if let Some(p) = u.promoted {
                    let inst = Instance { def: InstanceKind::Item(u.def), args: u.args };
                    if self.allowed(u.def) {
                        let k = self.enqueue(Item { inst, promoted: Some(p), root });
                        o.push(("key", s(k)));
                    }
                } else if let Ok(Some(inst)) = Instance::try_resolve(tcx, env, u.def, u.args) {
                    let id = inst.def_id();
                    o.push(("rdef", s(path(tcx, id))));
                    if (tcx.is_mir_available(id) || (matches!(tcx.def_kind(id), DefKind::Const { .. } | DefKind::AssocConst { .. } | DefKind::AnonConst) && self.allowed(id))) {
                        let k = self.enqueue(Item { inst, promoted: None, root });
                        o.push(("key", s(k)));
                    }
                }
                J::O(o)
            }
        }
    }

    fn place(&mut self, p: &Place<'tcx>) -> J {
        let mut pr = vec![];
        for e in p.projection.iter() {
            pr.push(match e {
                ProjectionElem::Deref => J::A(vec![s("d")]),
                ProjectionElem::Field(f, t) => {
                    let tj = self.ty(t);
                    J::A(vec![s("f"), J::I(f.as_usize() as i128), tj])
                }
                ProjectionElem::Index(l) => J::A(vec![s("i"), J::I(l.as_usize() as i128)]),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => J::A(vec![
                    s("ci"),
                    J::I(offset as i128),
                    J::I(min_length as i128),
                    J::B(from_end),
                ]),
                ProjectionElem::Subslice { from, to, from_end } => {
                    J::A(vec![s("ss"), J::I(from as i128), J::I(to as i128), J::B(from_end)])
                }
                ProjectionElem::Downcast(_, v) => J::A(vec![s("v"), J::I(v.as_usize() as i128)]),
                _ => J::A(vec![s("o")]),
            });
        }
        J::A(vec![J::I(p.local.as_usize() as i128), J::A(pr)])
    }

    fn operand(&mut self, o: &Operand<'tcx>, root: DefId) -> J {
        match o {
            Operand::Copy(p) => J::A(vec![s("c"), self.place(p)]),
            Operand::Move(p) => J::A(vec![s("m"), self.place(p)]),
            Operand::Constant(c) => J::A(vec![s("k"), self.constant(&c.const_, root)]),
            #[allow(unreachable_patterns)]
            other => J::A(vec![s("rt"), s(format!("{:?}", other))]),
        }
    }

    fn rvalue(&mut self, r: &Rvalue<'tcx>, root: DefId) -> J {
        match r {
            Rvalue::Use(o, ..) => J::A(vec![s("use"), self.operand(o, root)]),
            Rvalue::Repeat(o, c) => {
                let a = self.operand(o, root);
                let b = self.tyconst(*c);
                J::A(vec![s("repeat"), a, b])
            }
            Rvalue::Ref(_, bk, p) => {
                let m = matches!(bk, BorrowKind::Mut { .. });
                J::A(vec![s("ref"), J::B(m), self.place(p)])
            }
            Rvalue::RawPtr(k, p) => {
                let m = format!("{:?}", k).contains("Mut");
                J::A(vec![s("ref"), J::B(m), self.place(p)])
            }
            Rvalue::Reborrow(_, m, p) => J::A(vec![s("reborrow"), J::B(m.is_mut()), self.place(p)]),
            Rvalue::Cast(k, o, t) => {
                let a = self.operand(o, root);
                let tj = self.ty(*t);
                let ks = format!("{:?}", k);
                if let CastKind::PointerCoercion(..) = k {
                    if ks.contains("ReifyFnPointer") || ks.contains("ClosureFnPointer") {}
                }
                J::A(vec![s("cast"), s(ks), a, tj])
            }
            Rvalue::BinaryOp(op, b) => {
                let x = self.operand(&b.0, root);
                let y = self.operand(&b.1, root);
                J::A(vec![s("bin"), s(format!("{:?}", op)), x, y])
            }
            Rvalue::UnaryOp(op, o) => {
                let x = self.operand(o, root);
                J::A(vec![s("un"), s(format!("{:?}", op)), x])
            }
            Rvalue::Discriminant(p) => J::A(vec![s("discr"), self.place(p)]),
            Rvalue::Aggregate(k, ops) => {
                let v: Vec<J> = ops.iter().map(|o| self.operand(o, root)).collect();
                let kj = match &**k {
                    AggregateKind::Array(_) => J::A(vec![s("array")]),
                    AggregateKind::Tuple => J::A(vec![s("tuple")]),
                    AggregateKind::Adt(d, vi, _, _, fi) => J::A(vec![
                        s("adt"),
                        s(path(self.tcx, *d)),
                        J::I(vi.as_usize() as i128),
                        fi.map(|x| J::I(x.as_usize() as i128)).unwrap_or(J::Null),
                    ]),
                    AggregateKind::Closure(d, args) => {
                        let inst = Instance { def: InstanceKind::Item(*d), args: *args };
                        if self.allowed(*d) && self.tcx.is_mir_available(*d) {
                            let key = self.enqueue(Item { inst, promoted: None, root });
                            J::A(vec![s("closure"), s(path(self.tcx, *d)), s(key)])
                        } else {
                            J::A(vec![s("closure"), s(path(self.tcx, *d)), J::Null])
                        }
                    }
                    AggregateKind::RawPtr(t, m) => {
                        let tj = self.ty(*t);
                        J::A(vec![s("rawptr"), tj, J::B(m.is_mut())])
                    }
                    _ => J::A(vec![s("other")]),
                };
                J::A(vec![s("agg"), kj, J::A(v)])
            }
            Rvalue::CopyForDeref(p) => {
                let p = self.place(p);
                J::A(vec![s("use"), J::A(vec![s("c"), p])])
            }
            _ => J::A(vec![s("other"), s(format!("{:?}", r))]),
        }
    }

    fn body(&mut self, b: &Body<'tcx>, root: DefId) -> Vec<(&'static str, J)> {
        let mut locals = vec![];
        for l in b.local_decls.iter() {
            locals.push(self.ty(l.ty));
        }
        let mut names = vec![];
        for v in &b.var_debug_info {
            if let VarDebugInfoContents::Place(p) = &v.value {
                if p.projection.is_empty() {
                    names.push(J::A(vec![J::I(p.local.as_usize() as i128), s(v.name.to_string())]));
                }
            }
        }
        let mut blocks = vec![];
        for bb in b.basic_blocks.iter() {
            if bb.is_cleanup {
                blocks.push(J::Null);
                continue;
            }
            let mut st = vec![];
            for x in &bb.statements {
                match &x.kind {
                    StatementKind::Assign(a) => {
                        let p = self.place(&a.0);
                        let r = self.rvalue(&a.1, root);
                        let sp = self.span(x.source_info.span);
                        st.push(J::A(vec![s("="), p, r, sp]));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        let p = self.place(place);
                        st.push(J::A(vec![s("sd"), p, J::I(variant_index.as_usize() as i128)]));
                    }
                    StatementKind::Intrinsic(i) => match &**i {
                        NonDivergingIntrinsic::Assume(o) => {
                            let o = self.operand(o, root);
                            st.push(J::A(vec![s("assume"), o]));
                        }
                        NonDivergingIntrinsic::CopyNonOverlapping(c) => {
                            let a = self.operand(&c.src, root);
                            let d = self.operand(&c.dst, root);
                            let n = self.operand(&c.count, root);
                            st.push(J::A(vec![s("cno"), a, d, n]));
                        }
                    },
                    _ => {}
                }
            }
            let t = bb.terminator();
            let sp = self.span(t.source_info.span);
            let spx = self.span_exp(t.source_info.span);
            let b2i = |b: &BasicBlock| J::I(b.as_usize() as i128);
            let tj = match &t.kind {
                TerminatorKind::Goto { target, .. } => J::A(vec![s("goto"), b2i(target)]),
                TerminatorKind::FalseEdge { real_target, .. } => J::A(vec![s("goto"), b2i(real_target)]),
                TerminatorKind::FalseUnwind { real_target, .. } => J::A(vec![s("goto"), b2i(real_target)]),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let dt = discr.ty(&b.local_decls, self.tcx);
                    let d = self.operand(discr, root);
                    let dtj = self.ty(dt);
                    let signed_bits = match dt.kind() {
                        ty::Int(i) => Some(i.bit_width().unwrap_or(64)),
                        _ => None,
                    };
                    let ts = targets
                        .iter()
                        .map(|(v, b)| {
                            let v = match signed_bits {
                                Some(w) => {
                                    let sh = 128 - w as u32;
                                    ((v << sh) as i128) >> sh
                                }
                                None => v as i128,
                            };
                            J::A(vec![J::S(v.to_string()), b2i(&b)])
                        })
                        .collect();
                    J::A(vec![s("switch"), d, dtj, J::A(ts), b2i(&targets.otherwise())])
                }
                TerminatorKind::Return => J::A(vec![s("ret")]),
                TerminatorKind::Unreachable => J::A(vec![s("unreachable")]),
                TerminatorKind::Drop { place, target, .. } => {
                    let p = self.place(place);
                    J::A(vec![s("drop"), p, b2i(target)])
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let fty = func.ty(&b.local_decls, self.tcx);
                    let f = match fty.kind() {
                        ty::FnDef(d, args) => {
                            let args = args.no_bound_vars().unwrap_or_else(|| args.skip_binder());
                            J::A(vec![s("k"), self.fnref(*d, args, root)])
                        }
                        _ => self.operand(func, root),
                    };
                    let a: Vec<J> = args.iter().map(|x| self.operand(&x.node, root)).collect();
                    let d = self.place(destination);
                    let dt = destination.ty(&b.local_decls, self.tcx).ty;
                    let dtj = self.ty(dt);
                    J::A(vec![
                        s("call"),
                        f,
                        J::A(a),
                        d,
                        target.as_ref().map(b2i).unwrap_or(J::Null),
                        dtj,
                    ])
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let c = self.operand(cond, root);
                    let m = match &**msg {
                        AssertKind::BoundsCheck { len, index } => {
                            let l = self.operand(len, root);
                            let i = self.operand(index, root);
                            J::A(vec![s("bounds"), l, i])
                        }
                        AssertKind::Overflow(op, ..) => J::A(vec![s("overflow"), s(format!("{:?}", op))]),
                        AssertKind::OverflowNeg(_) => J::A(vec![s("overflow"), s("Neg")]),
                        AssertKind::DivisionByZero(_) => J::A(vec![s("divzero")]),
                        AssertKind::RemainderByZero(_) => J::A(vec![s("remzero")]),
                        _ => J::A(vec![s("rtcheck")]),
                    };
                    J::A(vec![s("assert"), c, J::B(*expected), m, b2i(target)])
                }
                TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => J::A(vec![s("unwind")]),
                _ => J::A(vec![s("other")]),
            };
            blocks.push(J::O(vec![("s", J::A(st)), ("t", tj), ("sp", sp), ("spx", spx)]));
        }
        vec![
            ("argc", J::I(b.arg_count as i128)),
            ("spread", b.spread_arg.map(|l| J::I(l.as_usize() as i128)).unwrap_or(J::Null)),
            ("locals", J::A(locals)),
            ("names", J::A(names)),
            ("blocks", J::A(blocks)),
        ]
    }

    fn process(&mut self, it: Item<'tcx>) -> J {
        let tcx = self.tcx;
        let id = it.inst.def_id();
        let mut o: Vec<(&'static str, J)> = vec![("def", s(path(tcx, id))), ("local", J::B(id.is_local()))];
        let a = self.args(it.inst.args);
        o.push(("args", a));
        o.push(("span", self.span(tcx.def_span(id))));
        o.push(("name", s(tcx.opt_item_name(id).map(|x| x.to_string()).unwrap_or_default())));
        o.push(("kind", s(format!("{:?}", tcx.def_kind(id)))));
        // enclosing impl information
        if let Some(im) = tcx.impl_of_assoc(id) {
            let st = tcx.type_of(im).instantiate_identity().skip_norm_wip();
            let st = self.ty(st);
            o.push(("impl_self", st));
            if let Some(tr) = tcx.impl_opt_trait_ref(im) {
                let tr = tr.instantiate_identity().skip_norm_wip();
                o.push(("impl_trait", s(path(tcx, tr.def_id))));
                let ta = self.args(tr.args);
                o.push(("impl_trait_args", ta));
            }
        }
        if let Some(tr) = tcx.trait_of_assoc(id) {
            o.push(("of_trait", s(path(tcx, tr))));
        }
        if tcx.def_kind(id).is_fn_like() {
            let unsafe_ = tcx.def_kind(id) != DefKind::Closure && tcx.fn_sig(id).skip_binder().safety().is_unsafe();
            o.push(("unsafe", J::B(unsafe_)));
            if tcx.def_kind(id) != DefKind::Closure {
                o.push(("vis", s(if tcx.visibility(id).is_public() { "pub" } else { "priv" })));
                if let Some(l) = id.as_local() {
                    o.push(("reach", J::B(tcx.effective_visibilities(()).is_reachable(l))));
                }
            }
        }
        let raw: Option<&'tcx Body<'tcx>> = if let Some(p) = it.promoted {
            tcx.promoted_mir(id).get(p)
        } else {
            match it.inst.def {
                InstanceKind::Item(id) => match tcx.def_kind(id) {
                    DefKind::Const { .. } | DefKind::AssocConst { .. } | DefKind::AnonConst | DefKind::Static { .. } => {
                        Some(tcx.mir_for_ctfe(id))
                    }
                    _ => Some(tcx.optimized_mir(id)),
                },
                k => Some(tcx.instance_mir(k)),
            }
        };
        if let Some(raw) = raw {
            let env = self.tenv(it.root);
            let body = match it.inst.try_instantiate_mir_and_normalize_erasing_regions(tcx, env, EarlyBinder::bind(tcx, raw.clone())) {
                Ok(b) => b,
                Err(_) => {
                    o.push(("normfail", J::B(true)));
                    raw.clone()
                }
            };
            let b = self.body(&body, it.root);
            o.extend(b);
        }
        J::O(o)
    }
}

pub fn dump(tcx: TyCtxt<'_>, out: &str) {
    let list = |v: &str| -> Vec<String> {
        std::env::var(v).unwrap_or_default().split(';').filter(|x| !x.is_empty()).map(|x| x.to_string()).collect()
    };
    let mut d = D {
        tcx,
        tys: vec![],
        tymap: HashMap::new(),
        queue: VecDeque::new(),
        seen: HashMap::new(),
        keys: HashSet::new(),
        allow: list("MIRDUMP_ALLOW"),
        deny: list("MIRDUMP_DENY"),
    };
    let mut roots = vec![];
    for ld in tcx.hir_body_owners() {
        let id = ld.to_def_id();
        let dk = tcx.def_kind(id);
        let ok = matches!(dk, DefKind::Fn | DefKind::AssocFn | DefKind::AssocConst { .. } | DefKind::Const { .. });
        if !ok {
            continue;
        }
        let args = ty::GenericArgs::identity_for_item(tcx, id);
        let inst = Instance { def: InstanceKind::Item(id), args };
        let k = d.enqueue(Item { inst, promoted: None, root: id });
        roots.push(s(k));
    }
    let mut fns = vec![];
    while let Some(it) = d.queue.pop_front() {
        let k = d.seen[&it].clone();
        let j = d.process(it);
        fns.push((k, j));
    }
    // impl table of the local crate
    let mut impls = vec![];
    for (tr, ims) in tcx.all_local_trait_impls(()) {
        for im in ims {
            let im = im.to_def_id();
            let trr = tcx.impl_trait_ref(im).instantiate_identity().skip_norm_wip();
            let st = d.ty(trr.self_ty());
            let ta = d.args(trr.args);
            let mut items = vec![];
            for a in tcx.associated_items(im).in_definition_order() {
                items.push(J::O(vec![
                    ("n", s(a.name().to_string())),
                    ("k", s(format!("{:?}", a.kind).split(' ').next().unwrap_or("").to_string())),
                    ("path", s(path(tcx, a.def_id))),
                ]));
            }
            impls.push(J::O(vec![
                ("trait", s(path(tcx, *tr))),
                ("self", st),
                ("targs", ta),
                ("span", d.span(tcx.def_span(im))),
                ("items", J::A(items)),
            ]));
        }
    }
    let j = J::O(vec![
        ("crate", s(tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE).to_string())),
        ("roots", J::A(roots)),
        ("fns", J::M(fns)),
        ("impls", J::A(impls)),
        ("types", J::A(std::mem::take(&mut d.tys))),
    ]);
    let mut o = String::new();
    j.write(&mut o);
    std::fs::write(out, o).unwrap();
}
